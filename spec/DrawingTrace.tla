---------------------------- MODULE DrawingTrace ----------------------------
(* Recorded drawings of lattices (one visualizer, several drawings) and of    *)
(* circuits.                                                                  *)
EXTENDS Drawing, Json, IOUtils
QM == INSTANCE Qasm
VARIABLES c, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Load(s) == [data |-> s.data, stabs |-> s.stabs, logs |-> s.logs, edges |-> Elems(s.edges),
            info |-> [v \in Elems(s.stabs) \cup Elems(s.logs) |-> (CHOOSE x \in Elems(s.info) : x[1] = v)[2]]]
NameAt(d, v) == (CHOOSE x \in Elems(d.lat.info) : x[1] = v)[2]

Mark(m) == [name |-> m.name, at |-> m.at, own |-> m.own, ext |-> m.ext]
Frame(m) == [name |-> m.name, at |-> m.at, own |-> m.own]
Seg(s) == [name |-> s.name, ends |-> {s.a, s.b}]
NoHover(S) == {[name |-> m.name, at |-> m.at] : m \in S}
Frames == {"X error", "Z error", "X correction", "Z correction"}
\* Styles that stay colored in grey drawings.
Loud(n) == n \in Frames \cup {Toggled[g] : g \in {"U", "A", "B"}}
SameLook(a, b) == {a, b} = {"Stabilizer", "A stabilizer"}   \* never in one code of the library

Draw(d) ==
    LET l == Load(d.lat)
        r == d.req
        syn == {i - 1 : i \in {j \in DOMAIN r.syn : r.syn[j] = 1}}
        all == DataMarks(l) \cup StabMarks(l, syn) \cup LogMarks(l)
        plain == r.op \in {"lattice", "mpl"}
        need == IF plain \/ r.stabs = 1 THEN all ELSE DataMarks(l)
        may == IF plain \/ r.stabs = 1 THEN all ELSE DataMarks(l) \cup LogMarks(l)
        segs == IF plain \/ r.edges = 1 THEN Segments(l) ELSE {}
        seen == {Mark(d.marks[i]) : i \in DOMAIN d.marks}
        seen2 == {Seg(d.segs[i]) : i \in DOMAIN d.segs}
        fr == FrameMarks(l, Elems(r.ex), Elems(r.ez), Elems(r.cx), Elems(r.cz), r.only)
        seenf == {Frame(d.frame[i]) : i \in DOMAIN d.frame}
        pts == {<<d.frame[i].x, d.frame[i].y>> : i \in DOMAIN d.frame}
        grey == r.op = "data" /\ r.grey = 1
        look == {i \in DOMAIN d.styles : TRUE}
    IN  IF r.bad # "" THEN IF d.err = "" THEN "accepted: " \o r.bad ELSE ""
        ELSE IF d.err # "" THEN "drawing fails: " \o d.err
        ELSE IF d.odd # 0 THEN "unknown parts"
        ELSE IF r.op = "mpl" /\ (NoHover(seen) # NoHover(all) \/ Len(d.marks) # Cardinality(all)) THEN "marks"
        ELSE IF r.op # "mpl" /\ (~(need \subseteq seen /\ seen \subseteq may) \/ Len(d.marks) # Cardinality(seen)) THEN
             IF NoHover(need) \subseteq NoHover(seen) /\ NoHover(seen) \subseteq NoHover(may) THEN "numbers of qubits and operators" ELSE "marks"
        ELSE IF seen2 # segs \/ Len(d.segs) # Cardinality(segs) THEN "edges"
        ELSE IF seenf # fr \/ Len(d.frame) # Cardinality(fr) THEN "errors and corrections"
        ELSE IF Cardinality(pts) # Len(d.frame) \/ \E p \in pts : \E v \in Occupied(l) : p = <<100 * v[1], 100 * v[2]>> THEN "marks hide each other"
        ELSE IF r.op # "mpl" /\ \E i \in DOMAIN d.marks : (d.marks[i].set = 1) # (d.marks[i].name \in {Toggled[g] : g \in {"U", "A", "B"}})
             THEN "syndrome in the text"
        ELSE IF r.op # "mpl" /\ \E i \in DOMAIN d.marks : d.marks[i].name = "Logical operator" /\ d.marks[i].text # NameAt(d, d.marks[i].at)
             THEN "name of a logical operator"
        ELSE IF d.probs # <<>> /\ {<<d.probs[i][1], d.probs[i][2]>> : i \in DOMAIN d.probs} # {<<l.data[i], CS.probs[i]>> : i \in DOMAIN l.data}
             THEN "error probabilities"
        ELSE IF CS.probs # <<>> /\ r.op # "mpl" /\ d.probs = <<>> /\ l.data # <<>> THEN "no error probabilities"
        ELSE IF CS.probs # <<>> /\ r.op # "mpl" /\ \E i \in DOMAIN d.marks : d.marks[i].name = "Data qubit" /\ d.marks[i].p # CS.probs[d.marks[i].own + 1]
             THEN "error probabilities in the text"
        ELSE IF grey /\ \E i \in DOMAIN d.styles : (d.styles[i].grey = 1) # ~Loud(d.styles[i].name) /\ ~(d.styles[i].name = "Data qubit" /\ CS.probs # <<>>)
             THEN "grey"
        ELSE IF ~grey /\ \E i \in DOMAIN d.styles : d.styles[i].grey = 1 THEN "colors not restored"
        ELSE IF \E i, j \in look : i # j /\ d.styles[i].kind = d.styles[j].kind /\ d.styles[i].name # d.styles[j].name
                    /\ d.styles[i].look = d.styles[j].look /\ ~SameLook(d.styles[i].name, d.styles[j].name) THEN "same style"
        ELSE IF \E i \in DOMAIN CS.draws : LET e == CS.draws[i] IN
                    e.req.op = r.op /\ e.err = "" /\ e.req.grey = r.grey /\
                    \E a \in look, b \in DOMAIN e.styles : d.styles[a].name = e.styles[b].name /\ d.styles[a].look # e.styles[b].look
             THEN "style differs from another drawing"
        ELSE IF r.op = "mpl" /\ (d.inside # 1 \/ Elems(d.legend) # {d.styles[i].name : i \in look}) THEN "axes or legend"
        ELSE IF d.kept # 1 THEN "input modified"
        ELSE ""
Circuit ==
    LET want == SelectSeq(QM!Unroll(CS.prog, 0), LAMBDA a : a.op # "reset") IN
    IF ~QM!AllSupported(CS.prog) THEN IF CS.err = "" THEN "unsupported instruction drawn" ELSE ""
    ELSE IF CS.err # "" THEN "drawing fails: " \o CS.err
    ELSE IF CS.width # QM!Width(CS.prog) THEN "number of qubits"
    ELSE IF CS.bits # QM!Bits(CS.prog) THEN "number of results"
    ELSE IF ~QM!SameTrace(want, SelectSeq(CS.atoms, LAMBDA a : a.op # "reset")) THEN "operations"
    ELSE IF CS.figure # 1 THEN "no figure"
    ELSE ""
Refuse == IF (CS.bad = 1) = (CS.err # "") THEN "" ELSE IF CS.bad = 1 THEN "accepted: " \o CS.what ELSE "refused: " \o CS.what
Bad == CASE CS.kind = "lattice" ->
              (LET b == {i \in DOMAIN CS.draws : Draw(CS.draws[i]) # ""}
               IN  IF b = {} THEN <<>> ELSE <<MinOf(b), CS.draws[MinOf(b)].req.op \o ": " \o Draw(CS.draws[MinOf(b)])>>)
         [] CS.kind = "circuit" -> (IF Circuit = "" THEN <<>> ELSE <<1, Circuit>>)
         [] CS.kind = "request" -> (IF Refuse = "" THEN <<>> ELSE <<1, Refuse>>)
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> Bad]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
