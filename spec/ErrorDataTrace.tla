-------------------------- MODULE ErrorDataTrace --------------------------
(***************************************************************************)
(* Recorded histories of ErrorData objects: after every step the tables, the*)
(* enabled errors, the dictionaries handed to the simulation and the verdict *)
(* of the check against a code must be those of the description.            *)
(***************************************************************************)
EXTENDS ErrorData, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, s, bad
vars == <<c, pc, s, bad>>
CS == Cases[c]
D == {CS.data[k] : k \in DOMAIN CS.data}
S == {CS.stab[k] : k \in DOMAIN CS.stab}
SetOf(q) == {q[k] : k \in DOMAIN q}
Names == Paulis \cup {"erasure", "measurement", "fabrication"}

Tab(list, cols) == [i \in {list[k].q : k \in DOMAIN list} |->
    LET r == CHOOSE k \in DOMAIN list : list[k].q = i
    IN  [t |-> list[r].t, v |-> [x \in cols |-> list[r].v[x]]]]
Seen(o) == [cols |-> SetOf(o.cols), tab |-> Tab(o.tab, SetOf(o.cols)), en |-> SetOf(o.en),
            rows |-> o.rows, eg |-> SetOf(o.eg)]

(* --- the description made from a configuration --------------------------- *)
QLabel(cfg, x) == cfg[CHOOSE k \in DOMAIN cfg : cfg[k].label = x]
ConfVal(ev, i, x) ==
    LET e == QLabel(ev.qcfg, x)
        def == IF x = "fabrication" THEN Available ELSE 0
        f == Tab(ev.frame, SetOf(ev.fcols))
    IN  CASE e.kind = "none" -> 10000000
          [] e.kind = "constant" -> e.val
          [] e.kind = "gaussian" -> IF e.sd = 0 THEN e.val ELSE AnyValue
          [] e.kind = "user" -> IF ev.file /\ Val(f, i, x) # NA THEN Val(f, i, x) ELSE def
Row(g, q, ch, p) == [g |-> g, q |-> q, c |-> ch, p |-> p]
GOf(p) == IF p.kind = "gaussian" /\ p.sd # 0 THEN AnyValue ELSE p.val
LabelRows(ev, l) ==
    IF l.kind = "user" THEN SelectSeq(ev.grows, LAMBDA r : ev.file /\ r.g = l.label)
    ELSE [k \in DOMAIN l.params |->
            Row(l.label, IF l.label \in One1 THEN CS.stab ELSE CS.edges, <<l.params[k].ch>>,
                <<GOf(l.params[k])>>)]
Configured(ev) ==
    LET qcols == IF ~ev.hasq THEN {} ELSE {ev.qcfg[k].label : k \in DOMAIN ev.qcfg}
        rows == IF ~ev.hasg THEN <<>>
                ELSE FlattenSeq([k \in DOMAIN ev.gcfg |-> LabelRows(ev, ev.gcfg[k])])
    IN  IF ~ev.hasq /\ ~ev.hasg
        THEN Overwrite(Empty, Paulis, Fresh(D, S, Paulis, LAMBDA i, x : 100000000))
        ELSE [cols |-> qcols, tab |-> Fresh(D, S, qcols, LAMBDA i, x : ConfVal(ev, i, x)),
              en |-> qcols, rows |-> rows,
              eg |-> IF ~ev.hasg THEN {} ELSE {ev.gcfg[k].label : k \in DOMAIN ev.gcfg}]

\* Random numbers lie where they should, and are not all the same.
Lo(m, sd) == IF sd > One \div 8 \/ m - 8 * sd < 0 THEN 0 ELSE m - 8 * sd
Hi(m, sd) == IF sd > One \div 8 \/ m + 8 * sd > One THEN One ELSE m + 8 * sd
Drawn(vals, m, sd) == /\ \A v \in vals : Lo(m, sd) <= v /\ v <= Hi(m, sd)
                      /\ sd > 0 => Cardinality(vals) > 1
GaussOk(ev, o) ==
    /\ ev.hasq => \A k \in DOMAIN ev.qcfg : ev.qcfg[k].kind = "gaussian" =>
         Drawn({o.tab[i].v[ev.qcfg[k].label] : i \in DOMAIN o.tab}, ev.qcfg[k].val, ev.qcfg[k].sd)
    /\ ev.hasg => \A k \in DOMAIN ev.gcfg : ev.gcfg[k].kind # "user" =>
         LET l == ev.gcfg[k]
             p == l.params[Len(l.params)]     \* the one that counts
         IN  p.kind = "gaussian" =>
               Drawn({x[5] : x \in {x \in GateDict(o) : x[1] = l.label}}, p.val, p.sd)

(* --- numbers for a list of qubits ---------------------------------------- *)
Outside(v) == v < 0 \/ v > One
Count(P(_), vals) == Cardinality({k \in DOMAIN vals : P(vals[k])})
\* Truncation does not matter this far from the ends.
Inside(ev) == ev.sd <= One \div 8 /\ ev.m - 8 * ev.sd >= 0 /\ ev.m + 8 * ev.sd <= One
(* The normal distribution function, in 1/10000, of k/4 deviations; between  *)
(* the entries it is interpolated (which is wrong by at most 0.002).          *)
Normal == <<5000, 5987, 6915, 7734, 8413, 8944, 9332, 9599, 9772, 9878, 9938, 9970, 9987, 9994, 9998, 9999, 10000>>
Upper(z) == IF z >= 400 THEN 10000      \* z in 1/100 deviations
            ELSE Normal[z \div 25 + 1] + ((Normal[z \div 25 + 2] - Normal[z \div 25 + 1]) * (z % 25)) \div 25
Cdf(z) == IF z >= 0 THEN Upper(z) ELSE 10000 - Upper(-z)
Z(ev, x) == LET a == IF x >= ev.m THEN x - ev.m ELSE ev.m - x
                z == ((a \div 10000) * 100) \div (ev.sd \div 10000)
            IN  IF x >= ev.m THEN z ELSE -z
\* Of the numbers, truncated to [0, 1], so many are at most x, in 1/10000.
AtMost(ev, x) == ((Cdf(Z(ev, x)) - Cdf(Z(ev, 0))) * 10000) \div (Cdf(Z(ev, One)) - Cdf(Z(ev, 0)))
\* 400 numbers: at most 64 more or less than expected, more than six deviations.
Fits(ev, x) == LET k == Count(LAMBDA v : v <= x, ev.vals) * 25
               IN  AtMost(ev, x) - 1600 <= k /\ k <= AtMost(ev, x) + 1600
Marks(ev) == {ev.m} \cup {x \in {ev.m - ev.sd, ev.m - ev.sd \div 2} : x > 0}
                    \cup {x \in {ev.m + ev.sd, ev.m + ev.sd \div 2} : ev.sd <= One /\ x < One}
Draw(ev) ==
    IF ev.refused # (Outside(ev.m) \/ Outside(ev.sd)) THEN "numbers refused or not"
    ELSE IF ev.refused THEN ""
    ELSE IF Len(ev.vals) # ev.n \/ \E k \in DOMAIN ev.vals : Outside(ev.vals[k]) THEN "numbers"
    ELSE IF ev.sd = 0 THEN IF \E k \in DOMAIN ev.vals : ev.vals[k] # ev.m THEN "constant numbers" ELSE ""
    \* 400 numbers: half of them below the mean, two thirds within one deviation, hardly one beyond three
    ELSE IF ev.n < 400 THEN ""
    ELSE IF \E x \in Marks(ev) : ~Fits(ev, x) THEN "distribution of the numbers"
    ELSE IF ~Inside(ev) THEN ""
    ELSE IF Count(LAMBDA v : v < ev.m, ev.vals) \notin 120..280 THEN "mean of the numbers"
    ELSE IF Count(LAMBDA v : v > ev.m - ev.sd /\ v < ev.m + ev.sd, ev.vals) \notin 210..330 THEN "spread of the numbers"
    ELSE ""

(* --- steps --------------------------------------------------------------- *)
Ok(ev) == CASE ev.op = "add" -> AddColumnOk(s, ev.name)
            [] ev.op = "set" -> UpdateColumnOk(s, ev.form, ev.q, ev.name, ev.p)
            [] ev.op = "template" -> SetOf(ev.names) \subseteq Names
            [] OTHER -> TRUE
Apply(ev) ==
    LET f == Tab(ev.frame, SetOf(ev.fcols))
        s1 == IF ~ev.hasq THEN s ELSE IF ev.over THEN Overwrite(s, SetOf(ev.fcols), f)
              ELSE Merge(s, SetOf(ev.fcols), f)
    IN  IF ~ev.hasg THEN s1 ELSE IF ev.over THEN SetRows(s1, ev.grows) ELSE AddRows(s1, ev.grows)
After(ev) ==
    CASE ev.op = "new" -> Empty
      [] ev.op = "template" ->
            Overwrite(Empty, SetOf(ev.names),
                Fresh(D, S, SetOf(ev.names), LAMBDA i, x : IF x = "fabrication" THEN Available ELSE 0))
      [] ev.op = "conf" -> Configured(ev)
      [] ev.op = "add" -> AddColumn(s, ev.q, ev.name, ev.p)
      [] ev.op = "set" -> UpdateColumn(s, ev.q, ev.name, ev.p)
      [] ev.op = "gate" -> AddGate(s, ev.grows[1])
      [] ev.op = "update" -> Apply(ev)
      [] ev.op = "enable" -> [s EXCEPT !.en = SetOf(ev.q), !.eg = SetOf(ev.p)]
      [] ev.op = "load" -> Loaded(s)

Same(x, y) == x = y \/ (x = AnyValue /\ y >= 0 /\ y <= One)
SameTab(x, y) == /\ DOMAIN x = DOMAIN y
                 /\ \A i \in DOMAIN x : /\ x[i].t = y[i].t
                                        /\ \A k \in DOMAIN x[i].v : Same(x[i].v[k], y[i].v[k])
SameDict(x, y) == /\ {SubSeq(e, 1, 4) : e \in x} = {SubSeq(e, 1, 4) : e \in y}
                  /\ \A e \in x : \A f \in y : SubSeq(e, 1, 4) = SubSeq(f, 1, 4) => Same(e[5], f[5])

Step1(ev) ==
    LET o == Seen(ev.obs)
        want == IF Ok(ev) /\ ~ev.refused THEN After(ev) ELSE s
    IN  IF ev.refused /\ Ok(ev) THEN "valid change refused"
        ELSE IF ~ev.refused /\ ~Ok(ev) THEN "invalid change accepted"
        ELSE IF o.cols # want.cols THEN "columns"
        ELSE IF ~SameTab(want.tab, o.tab) THEN "values of qubit errors"
        ELSE IF o.en # want.en THEN "enabled qubit errors"
        ELSE IF o.eg # want.eg THEN "enabled gate errors"
        ELSE IF ev.op # "conf" /\ o.rows # want.rows THEN "gate errors"
        ELSE IF ev.op = "conf" /\ ~SameDict(GateDict(want), GateDict(o)) THEN "configured gate errors"
        ELSE IF ev.op = "conf" /\ ~GaussOk(ev, o) THEN "gaussian errors"
        ELSE IF ev.op = "conf" /\ ~ev.same THEN "errors not reproducible"
        ELSE IF SetOf(ev.obs.qd) # QubitDict(o) THEN "simulated qubit errors"
        ELSE IF ev.obs.gdref # ~GateDictOk(o) THEN "single-qubit channels of two-qubit gates"
        ELSE IF ~ev.obs.gdref /\ SetOf(ev.obs.gd) # GateDict(o) THEN "simulated gate errors"
        ELSE IF ~ev.obs.gdref /\ (SetOf(ev.obs.allq) # QubitDict(o) \/ SetOf(ev.obs.allg) # GateDict(o))
             THEN "all simulated errors"
        ELSE IF (ev.obs.gdref \/ ~FitsCode(o, D, S)) /\ ev.obs.chk = "" THEN "errors of another code accepted"
        ELSE IF ~ev.obs.gdref /\ FitsCode(o, D, S) /\ TypesFit(o, D, S) /\ ev.obs.chk # ""
             THEN "errors of the code refused"
        ELSE ""

Clause(ev) == IF ev.op = "draw" THEN Draw(ev) ELSE Step1(ev)
Init == c \in DOMAIN Cases /\ pc = 1 /\ s = Empty /\ bad = <<>>
Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET cl == Clause(CS.evs[pc])
           IN  /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, CS.evs[pc].via \o ": " \o cl>>
               /\ s' = IF CS.evs[pc].op = "draw" THEN s ELSE Seen(CS.evs[pc].obs)
        /\ pc' = pc + 1
        /\ UNCHANGED c
EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc
          /\ bad # <<>> \/ pc = EndPc
          /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad]))
          /\ UNCHANGED <<c, s, bad>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
