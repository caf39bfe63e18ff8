------------------------------ MODULE DistTrace ------------------------------
(***************************************************************************)
(* Joint distribution of measurement and erasure records of a whole program *)
(* (StabCircuit semantics), against the Stim backend:                       *)
(*  - exactly, for the program plaquette hands to Stim, executed with the   *)
(*    documented semantics of the Stim instructions it uses;                *)
(*  - by sampling: every sampled outcome is possible, and frequencies are   *)
(*    within a wide (7 sigma) band of the exact probabilities.              *)
(* The ensemble ens maps machine states to exact weights.                   *)
(***************************************************************************)
EXTENDS StabCircuit, Json, IOUtils, FiniteSetsExt

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, pc, ens, want, bad
vars == <<c, pc, ens, want, bad>>

FMul(f, g) == LET g1 == Gcd(f[1], g[2])
                  g2 == Gcd(g[1], f[2])
              IN  <<(f[1] \div g1) * (g[1] \div g2), (f[2] \div g2) * (g[2] \div g1)>>

\* An ensemble is a sequence of <<st, weight>> with distinct st.
RECURSIVE Insert(_, _, _, _)
Insert(e, st, w, k) ==
    IF k > Len(e) THEN Append(e, <<st, w>>)
    ELSE IF e[k][1] = st THEN [e EXCEPT ![k][2] = FAdd(@, w)]
    ELSE Insert(e, st, w, k + 1)
Total(S, wt(_)) == FoldSet(LAMBDA x, acc : FAdd(acc, wt(x)), <<0, 1>>, S)
Advance(e, F(_)) ==
    LET flat == UNION {LET outs == F(e[k][1])
                       IN {<<outs[j].st, FMul(e[k][2], <<outs[j].n, outs[j].d>>), k, j>> : j \in DOMAIN outs}
                       : k \in DOMAIN e}
        sts == {x[1] : x \in flat}
    IN  SetToSeq({<<s, Total({x \in flat : x[1] = s}, LAMBDA x : x[2])>> : s \in sts})

-----------------------------------------------------------------------------
(* Stim instructions.  t: targets (qubits, or <<pauli code, qubit>> for     *)
(* correlated errors); a: probabilities as fractions.                       *)
FOuts(fs, sts) == [k \in DOMAIN fs |-> [n |-> fs[k][1], d |-> fs[k][2], st |-> sts[k]]]
FNeg(f) == LET g == Gcd(f[2] - f[1], f[2]) IN <<(f[2] - f[1]) \div g, f[2] \div g>>
Coin(st, f, yes) == Possible(<< [n |-> f[1], d |-> f[2], st |-> yes],
                                [n |-> f[2] - f[1], d |-> f[2], st |-> st] >>)
RECURSIVE FSum(_)
FSum(fs) == IF fs = <<>> THEN <<0, 1>> ELSE FAdd(Head(fs), FSum(Tail(fs)))
Channel(st, fs, app(_)) ==
    Possible(<< [n |-> FNeg(FSum(fs))[1], d |-> FNeg(FSum(fs))[2], st |-> st] >>
             \o [k \in DOMAIN fs |-> [n |-> fs[k][1], d |-> fs[k][2], st |-> app(k)]])
RECURSIVE ApplyAll(_, _, _)
ApplyAll(st, ts, k) == IF k > Len(ts) THEN st
                       ELSE ApplyAll(ApplyPauli(st, ts[k][1], ts[k][2]), ts, k + 1)
RECURSIVE Pairs(_, _, _, _)
Pairs(outs, F(_,_,_), qs, k) ==
    IF k + 1 > Len(qs) THEN outs
    ELSE Pairs(Bind(outs, LAMBDA s : F(s, qs[k], qs[k+1])), F, qs, k + 2)

StimSucc(st, ins) ==
    LET t == ins.t
        a == ins.a
    IN
    CASE ins.g \in {"X", "Y", "Z", "H", "CX", "CZ", "M", "R"} -> Gate(st, ins.g, t, <<>>)
      [] ins.g = "PAULI_CHANNEL_1" ->
            ForEach(One(st), LAMBDA s, q : Channel(s, a, LAMBDA k : ApplyPauli(s, k, q)), t, 1)
      [] ins.g = "DEPOLARIZE1" ->
            LET f == <<a[1][1], 3 * a[1][2]>>
            IN ForEach(One(st), LAMBDA s, q : Channel(s, <<f, f, f>>, LAMBDA k : ApplyPauli(s, k, q)), t, 1)
      [] ins.g = "PAULI_CHANNEL_2" ->
            Pairs(One(st), LAMBDA s, q1, q2 : Channel(s, a,
                     LAMBDA k : ApplyPauli(ApplyPauli(s, k \div 4, q1), k % 4, q2)), t, 1)
      [] ins.g = "X_ERROR" -> ForEach(One(st), LAMBDA s, q : Coin(s, a[1], ApplyPauli(s, 1, q)), t, 1)
      [] ins.g = "Y_ERROR" -> ForEach(One(st), LAMBDA s, q : Coin(s, a[1], ApplyPauli(s, 2, q)), t, 1)
      [] ins.g = "Z_ERROR" -> ForEach(One(st), LAMBDA s, q : Coin(s, a[1], ApplyPauli(s, 3, q)), t, 1)
      [] ins.g = "E" -> Coin([st EXCEPT !.applied = FALSE], a[1],
                             [ApplyAll(st, t, 1) EXCEPT !.applied = TRUE])
      [] ins.g = "ELSE_CORRELATED_ERROR" ->
            IF st.applied THEN One(st)
            ELSE Coin(st, a[1], [ApplyAll(st, t, 1) EXCEPT !.applied = TRUE])

-----------------------------------------------------------------------------
\* Records of the ensemble: set of <<meas, eras, weight>>.
Marginal(e, Proj(_)) ==
    LET keys == {Proj(e[k][1]) : k \in DOMAIN e}
    IN  {<<r, Total({k \in DOMAIN e : Proj(e[k][1]) = r}, LAMBDA k : e[k][2])>> : r \in keys}
PlaqRec(st) == <<st.meas, st.eras>>
SplitRec(st, fl) ==
    << [k \in 1..Len(SelectSeq(fl, LAMBDA b : ~b)) |->
          st.meas[CHOOSE j \in DOMAIN fl : ~fl[j] /\ Cardinality({i \in 1..j : ~fl[i]}) = k]],
       [k \in 1..Len(SelectSeq(fl, LAMBDA b : b)) |->
          st.meas[CHOOSE j \in DOMAIN fl : fl[j] /\ Cardinality({i \in 1..j : fl[i]}) = k]] >>

Init == /\ c \in DOMAIN Cases
        /\ pc = 1
        /\ ens = << <<Start(Cases[c].n), <<1, 1>>>> >>
        /\ want = {}
        /\ bad = <<>>

CS == Cases[c]
NP == Len(CS.prog)
NS == Len(CS.stim)

\* First part: the plaquette program.
StepProg == /\ bad = <<>> /\ pc <= NP
            /\ ens' = Advance(ens, LAMBDA st : Succ(st, CS.prog[pc]))
            /\ pc' = pc + 1
            /\ UNCHANGED <<c, want, bad>>

RECURSIVE Shrink(_)
Shrink(f) == IF f[1] > 60000 THEN Shrink(<<f[1] \div 2, f[2] \div 2>>) ELSE f
Expected(f, shots) == LET g == Shrink(f) IN (g[1] * shots) \div g[2]
Abs(x) == IF x < 0 THEN -x ELSE x
InBand(cnt, e) == LET d == Abs(cnt - e)
                  IN  d < 40000 /\ d * d <= 49 * (e + 2) + 64

MustReject == \E k \in DOMAIN CS.prog :
    \/ CS.prog[k].g \in {"ERROR_ELSE", "ERROR_CONTINUE"}
    \/ CS.prog[k].g = "ERROR" /\ (CS.prog[k].i \notin {"X", "Y", "Z"} \/ Len(CS.prog[k].q) # 1)

FreqClause(w) ==
    LET seen == {CS.freq[k] : k \in DOMAIN CS.freq}
        poss == {x[1] : x \in w}
    IN  IF \E f \in seen : <<f[1], f[2]>> \notin poss
        THEN LET f == CHOOSE f \in seen : <<f[1], f[2]>> \notin poss
             IN  IF \E x \in poss : x[1] = f[1] THEN "sampled an impossible erasure record"
                 ELSE "sampled an impossible measurement record"
        ELSE IF \E x \in w :
             LET fs == {f \in seen : <<f[1], f[2]>> = x[1]}
                 cnt == IF fs = {} THEN 0 ELSE (CHOOSE f \in fs : TRUE)[3]
             IN  ~InBand(cnt, Expected(x[2], CS.shots))
        THEN "outcome frequencies differ from the exact distribution"
        ELSE ""

Compare == /\ bad = <<>> /\ pc = NP + 1
           /\ LET w == Marginal(ens, PlaqRec)
                  cl == IF CS.err # ""
                        THEN IF MustReject THEN "" ELSE "Stim backend fails on a valid program: " \o CS.err
                        ELSE FreqClause(w)
              IN  /\ want' = w
                  /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, cl>>
           /\ ens' = << <<Start(CS.ns), <<1, 1>>>> >>
           /\ pc' = pc + 1
           /\ UNCHANGED c

StepStim == /\ bad = <<>> /\ pc > NP + 1 /\ pc <= NP + 1 + NS
            /\ ens' = Advance(ens, LAMBDA st : StimSucc(st, CS.stim[pc - NP - 1]))
            /\ pc' = pc + 1
            /\ UNCHANGED <<c, want, bad>>

LastPc == NP + 2 + NS
ExactClause == IF NS = 0 THEN ""
               ELSE IF Marginal(ens, LAMBDA st : SplitRec(st, CS.flags)) # want
               THEN "translated program has a different exact distribution"
               ELSE ""
CompareExact == /\ bad = <<>> /\ pc = LastPc
                /\ bad' = IF ExactClause = "" THEN <<>> ELSE <<pc, ExactClause>>
                /\ pc' = pc + 1
                /\ UNCHANGED <<c, ens, want>>

Report == /\ pc <= LastPc + 1
          /\ bad # <<>> \/ pc = LastPc + 1
          /\ pc' = LastPc + 2
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad, outcomes |-> Cardinality(want)]))
          /\ UNCHANGED <<c, ens, want, bad>>

Next == StepProg \/ Compare \/ StepStim \/ CompareExact \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
