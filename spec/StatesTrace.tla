---------------------------- MODULE StatesTrace ----------------------------
(***************************************************************************)
(* Recorded histories of stabilizer states: after every step the tableau     *)
(* must stand for the specified set of stabilizers, in every random branch.  *)
(***************************************************************************)
EXTENDS StabGroup, PauliText, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, G, n, bad
vars == <<c, pc, G, n, bad>>
CS == Cases[c]
SetOf(s) == {s[i] : i \in DOMAIN s}
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), IF r[3] = 1 THEN {0} ELSE {})
RowsOf(rows) == [i \in DOMAIN rows |-> Row(rows[i])]

\* Does the tableau o stand for the state H of m qubits?
Paired(o) == LET s == RowsOf(o.s)
                 d == RowsOf(o.d)
             IN  \A i, j \in DOMAIN s : Anti(s[i], d[j]) = (i = j)
Stands(o, H, m) == /\ o.n = m /\ Len(o.s) = m /\ Len(o.d) = m
                   /\ LET s == RowsOf(o.s)
                      IN  /\ \A i, j \in DOMAIN s : ~Anti(s[i], s[j])
                          /\ Span(s) = H
                   /\ Paired(o)

(* --- expected branches, probability 1/2^k; path: all outcomes on the way ------*)
Br(out, path, H, k) == [out |-> out, path |-> path, grp |-> H, k |-> k]
Start(m, H) == Br([i \in 1..m |-> 0], <<>>, H, 0)
\* Measure p, for the i-th outcome (i = 0: nobody sees it), f: forced or -1.
Measured(b, p, f, i) ==
    LET rand == Rand(b.grp, p)
        vs == IF rand THEN IF f = -1 THEN {0, 1} ELSE {f} ELSE Outcomes(b.grp, p)
    IN  {Br(IF i = 0 THEN b.out ELSE [b.out EXCEPT ![i] = v], Append(b.path, v),
            IF rand THEN After(b.grp, p, v) ELSE b.grp,
            IF rand /\ f = -1 THEN b.k + 1 ELSE b.k) : v \in vs}
\* order: the order in which the operators are measured
MeasureAll(H, ops, forced, order) ==
    FoldLeft(LAMBDA B, i : UNION {Measured(b, ops[i], forced[i], i) : b \in B},
             {Start(Len(ops), H)}, order)
Flip(l, q) == IF l = "Z" THEN PX(q) ELSE PZ(q)
ResetOne(b, l, neg, q) ==
    LET p == [LetterOp(l, q) EXCEPT !.s = IF neg THEN {0} ELSE {}]
    IN  {IF m.path[Len(m.path)] = 1
         THEN [m EXCEPT !.grp = MapG(m.grp, LAMBDA g : PauliGate(g, Flip(l, q), {0}))] ELSE m :
            m \in Measured(b, p, -1, 0)}
ResetAll(H, l, neg, ts) ==
    FoldLeft(LAMBDA B, q : UNION {ResetOne(b, l, neg, q) : b \in B}, {Start(0, H)}, ts)

Size(ev) == CASE ev.ev = "base" -> IF ev.des THEN n - Len(ev.ts) ELSE n
              [] ev.ev = "insert" -> n + Len(ev.pos)
              [] ev.ev = "tensor" -> n + ev.other.n
              [] ev.ev = "zero" -> ev.n
              [] OTHER -> n
GateTargets(ev) == FoldLeft(LAMBDA H, q : GateG(H, ev.g, q), G, ev.qs)
Sure(H) == {Start(0, H)}
Upto(m) == [i \in 1..m |-> i]
Expected(ev, order) ==
    CASE ev.ev = "zero" -> Sure(Zeros(ev.n))
      [] ev.ev = "show" -> Sure(G)
      [] ev.ev = "gate" -> Sure(GateTargets(ev))
      [] ev.ev = "measure" -> MeasureAll(G, <<Row(ev.op)>>, <<ev.forced>>, <<1>>)
      [] ev.ev = "base" ->
           LET B == MeasureAll(G, [k \in DOMAIN ev.ts |-> LetterOp(ev.base, ev.ts[k])], ev.forced,
                               order)
           IN  IF ev.des THEN {[b EXCEPT !.grp = DropQubits(@, SetOf(ev.ts))] : b \in B} ELSE B
      [] ev.ev = "insert" -> Sure(Insert(G, ev.pos))
      [] ev.ev = "tensor" ->
           LET H == Span(RowsOf(ev.other.s))
           IN  Sure(IF ev.left THEN Tensor(H, ev.other.n, G) ELSE Tensor(G, n, H))
      [] ev.ev = "reset" -> ResetAll(G, ev.letter, ev.neg, ev.ts)
\* Forced outcomes of dependent measurements: whichever is measured first is forced.
Orders(ev) ==
    IF ev.ev = "base" /\ \E k \in DOMAIN ev.forced : ev.forced[k] # -1
    THEN {p \in [1..Len(ev.ts) -> 1..Len(ev.ts)] : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
    ELSE {IF ev.ev = "base" THEN Upto(Len(ev.ts)) ELSE <<>>}

(* --- the recorded branches --------------------------------------------------*)
\* Recorded branches with the same outcomes are the same branch, reached in several ways;
\* weights are multiples of 1/4096.
Weight(b) == (4096 * b.w[1]) \div b.w[2]
Pow2 == <<4096, 2048, 1024, 512, 256, 128, 64, 32>>
SumW(br, I) == FoldLeft(LAMBDA a, i : IF i \in I THEN a + Weight(br[i]) ELSE a, 0, [i \in DOMAIN br |-> i])
Against(ev, B) ==
    LET
        m == Size(ev)
        outs == {b.out : b \in B}
        seen == {ev.br[i].out : i \in DOMAIN ev.br}
    IN  IF seen # outs THEN "wrong outcomes"
        ELSE IF \E i \in DOMAIN ev.br : ~\E b \in B : b.out = ev.br[i].out /\ Stands(ev.br[i].tab, b.grp, m)
             THEN IF \E i \in DOMAIN ev.br : ev.br[i].tab.n # m THEN "wrong number of qubits"
                  ELSE IF \E i \in DOMAIN ev.br : ~Paired(ev.br[i].tab) THEN "destabilisers do not pair"
                  ELSE "wrong state"
        ELSE IF \E b \in B :
                  LET I == {i \in DOMAIN ev.br : ev.br[i].out = b.out
                                                 /\ Stands(ev.br[i].tab, b.grp, m)}
                      same == {x \in B : x.out = b.out /\ x.grp = b.grp}
                  IN  SumW(ev.br, I) # FoldSet(LAMBDA x, a : a + Pow2[x.k + 1], 0, same)
             THEN "wrong probability of an outcome"
        ELSE ""
Branches(ev) ==
    LET W == {Against(ev, Expected(ev, o)) : o \in Orders(ev)}
    IN  IF "" \in W THEN "" ELSE CHOOSE w \in W : TRUE

(* --- states from strings ------------------------------------------------------*)
Texts(ts, q) == [k \in DOMAIN ts |-> Parse(ts[k], q)]
Make(ev) ==
    LET P == Texts(ev.stabs, ev.qubits)
        D == Texts(ev.dests, ev.qubits)
        ok1 == (\A k \in DOMAIN P : P[k].ok /\ P[k].n = P[1].n) /\ P[1].n = Len(P)
        s == [k \in DOMAIN P |-> P[k].op]
        comm == \A i, j \in DOMAIN s : ~Anti(s[i], s[j])
        ind == IsState(Span(s), Len(s))
        d == [k \in DOMAIN D |-> D[k].op]
        okd == ev.both => /\ Len(d) = Len(s)
                          /\ \A k \in DOMAIN D : D[k].ok /\ D[k].n = Len(s)
                          /\ \A i, j \in DOMAIN s : /\ Anti(s[i], d[j]) = (i = j)
                                                    /\ ~Anti(d[i], d[j])
        ok == ok1 /\ comm /\ ind /\ okd
    IN  IF ~ok THEN IF ev.err = "" THEN "strings that describe no state accepted" ELSE ""
        ELSE IF ev.err # "" THEN "state refused: " \o ev.err
        ELSE LET o == ev.br[1].tab
             IN  IF ~Stands(o, Span(s), Len(s)) THEN "wrong state made from strings"
                 ELSE IF RowsOf(o.s) # s THEN "stabilisers changed"
                 ELSE IF ev.both /\ RowsOf(o.d) # d THEN "destabilisers changed"
                 ELSE IF \E i, j \in DOMAIN s : Anti(RowsOf(o.d)[i], RowsOf(o.d)[j])
                      THEN "destabilisers do not commute" ELSE ""
Lines(T(_), rows) == FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, ch : b \o ch, a, T(Row(r))) \o "\n", "", rows)
Printed(T(_), tab, dests) ==
    (IF dests THEN "Destabilisers:\n" \o Lines(T, tab.d) ELSE "") \o "Stabilisers:\n" \o Lines(T, tab.s)
Whole(tab) ==
    LET T(o) == Long(o, n) IN
    Lines(T, tab.d) \o FoldLeft(LAMBDA a, i : a \o "-", "", Upto(n + 1)) \o "\n" \o Lines(T, tab.s)
Show(ev) ==
    LET T(o) == IF ev.ident THEN Long(o, n) ELSE Short(o, n) IN
    IF ev.d # [k \in DOMAIN ev.tab.d |-> T(Row(ev.tab.d[k]))]
       \/ ev.s # [k \in DOMAIN ev.tab.s |-> T(Row(ev.tab.s[k]))] THEN "state shown wrongly"
    ELSE IF ev.printed # Printed(T, ev.tab, ev.dests) THEN "state printed wrongly"
    ELSE IF ev.whole # Whole(ev.tab) THEN "state printed wrongly (QuantumState)"
    ELSE IF ev.err # "" THEN "shown state cannot be read back: " \o ev.err
    ELSE Branches(ev)
\* Operators of the group applied to the generators: a product each.
ApplyEv(ev) ==
    IF RowsOf(ev.rows) # [i \in DOMAIN ev.before |-> Product(Row(ev.op), Row(ev.before[i]))]
    THEN "operator applied wrongly" ELSE ""

Judge(ev) == CASE ev.ev = "make" -> Make(ev)
               [] ev.ev = "show" -> Show(ev)
               [] ev.ev = "refuse" -> IF ev.err = "" THEN "impossible call accepted: " \o ev.what ELSE ""
               [] ev.ev = "apply" -> ApplyEv(ev)
               [] OTHER -> Branches(ev)
NextG(ev) ==
    IF ev.br = <<>> \/ ev.ev = "show" THEN <<G, n>>
    ELSE LET o == ev.br[ev.next].tab IN <<Span(RowsOf(o.s)), o.n>>

Report(b) == PrintT(ToJson([id |-> CS.id, bad |-> b]))
Init == c \in DOMAIN Cases /\ pc = 1 /\ G = {} /\ n = 0 /\ bad = <<>>
Step == /\ pc <= Len(CS.evs) /\ bad = <<>>
        /\ LET ev == CS.evs[pc]
               w == Judge(ev)
           IN  /\ bad' = IF w = "" THEN <<>> ELSE <<pc, w>>
               /\ LET g == IF w = "" THEN NextG(ev) ELSE <<G, n>>
                  IN  G' = g[1] /\ n' = g[2]
        /\ pc' = pc + 1 /\ c' = c
Done == /\ pc <= Len(CS.evs) + 1 /\ (pc = Len(CS.evs) + 1 \/ bad # <<>>)
        /\ Report(bad) /\ pc' = Len(CS.evs) + 2 /\ UNCHANGED <<c, G, n, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
SpecValid == n > 0 => IsState(G, n)
=============================================================================
