---------------------------- MODULE MCExperiment ----------------------------
EXTENDS Experiment

CONSTANTS MaxLen

VARIABLES cfg, b, last, len
vars == <<cfg, b, last, len>>

Values == [code |-> {"A", "B"}, errs |-> {1, 2}, log |-> {"X", "Z"}, dev |-> {"stim", "clifford"},
           dec |-> {"PyMatchingDecoder", "UnionFindNoWeights"}, weighted |-> BOOLEAN]
Init == /\ cfg = [code |-> "A", errs |-> 1, log |-> "X", dev |-> "stim", dec |-> "PyMatchingDecoder",
                  weighted |-> TRUE]
        /\ b = NotBuilt /\ last = <<"load", TRUE>> /\ len = 0
Set == \E k \in DOMAIN Values : \E v \in Values[k] :
          /\ cfg[k] # v /\ cfg' = [cfg EXCEPT ![k] = v]
          /\ last' = <<"set", TRUE>> /\ UNCHANGED b
Build == /\ last' = <<"build", CanBuildAll(cfg)>>
         /\ b' = IF CanBuildAll(cfg) THEN BuildAll(cfg, b) ELSE b
         /\ UNCHANGED cfg
One == \E x \in Parts : /\ last' = <<x, CanBuild(cfg, b, x)>>
                        /\ b' = IF CanBuild(cfg, b, x) THEN BuildOne(cfg, b, x) ELSE b
                        /\ UNCHANGED cfg
Next == len < MaxLen /\ len' = len + 1 /\ (Set \/ Build \/ One)
Spec == Init /\ [][Next]_vars

\* Building everything brings everything up to date, whatever was built before.
Fresh == last = <<"build", TRUE>> => UpToDate(cfg, b)
\* Building the parts one after the other does the same.
Stepwise == CanBuildAll(cfg) =>
    \A k \in 1..5 : LET acc == FoldLeft(LAMBDA a, x : BuildOne(cfg, a, x), b, SubSeq(Order, 1, k - 1))
                    IN  CanBuild(cfg, acc, Order[k])
\* Nothing is there without what it is made of.
Founded == /\ Made(b, "errors") => Made(b, "code")
           /\ Made(b, "circuit") => Made(b, "errors")
           /\ Made(b, "decoder") => Made(b, "errors")
\* One part more changes no other part.
Apart == [][\A x \in Parts : last'[1] \in Parts \ {x} => b'[x] = b[x]]_vars
View == <<cfg, b, last>>

(* The numbers against the codes themselves.                                  *)
RepCode(L) == [n |-> L, stabs |-> [i \in 1..(L - 1) |-> PauliOp({}, {i - 1, i}, {})],
               logs |-> <<PauliOp(0..(L - 1), {}, {}), PauliOp({}, {0}, {})>>]
\* Correcting to the nearest code word fails for a majority of errors.
Nearest(L, e) == LET code == RepCode(L)
                     fits == {S \in SUBSET (0..(L - 1)) : Syndrome(code, PauliOp(S, {}, {})) = Syndrome(code, e)}
                 IN  CHOOSE S \in fits : \A T \in fits : Cardinality(S) <= Cardinality(T)
ASSUME \A L \in {3, 5} : \A S \in SUBSET (0..(L - 1)) :
    LET e == PauliOp(S, {}, {})
        rest == PauliOp(Xor(S, Nearest(L, e)), {}, {})
    IN  /\ Fails("RepetitionCode", L, RepCode(L), <<2>>, 1, e) = IF Anti(rest, RepCode(L).logs[2]) THEN 1 ELSE 0
        /\ Fails("RepetitionCode", L, RepCode(L), <<1>>, 1, e) = 0
ASSUME \A L \in {3, 5} : Odds(L, 1, "Z", "X")[1] * Pow(4, L) = OddHits(L) * Odds(L, 1, "Z", "X")[2]
ASSUME Odds(3, 1, "X", "Z") = <<10, 64>>
ASSUME Likely(47, 300, <<10, 64>>) /\ ~Likely(90, 300, <<10, 64>>) /\ ~Likely(10, 300, <<10, 64>>)
=============================================================================
