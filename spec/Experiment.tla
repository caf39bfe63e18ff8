----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* An experiment: a configuration and the parts built from it.              *)
(*                                                                         *)
(* cfg : what is configured now, [code, errs, log, dev, dec, weighted]       *)
(* b   : the parts built so far, part -> <<>> (not built) or <<what it was   *)
(*       built from>>                                                       *)
(***************************************************************************)
EXTENDS StabCode, TLC

Parts == {"code", "errors", "circuit", "device", "decoder"}
Order == <<"code", "errors", "circuit", "device", "decoder">>
NotBuilt == [x \in Parts |-> <<>>]
Made(b, x) == b[x] # <<>>

\* Decoders without weights cannot be used with weights.
DecoderOk(cfg) == ~(cfg.dec = "UnionFindNoWeights" /\ cfg.weighted)

CanBuild(cfg, b, x) ==
    CASE x = "code" -> TRUE
      [] x = "device" -> TRUE
      [] x = "errors" -> Made(b, "code")
      [] x = "circuit" -> Made(b, "code") /\ Made(b, "errors")
      [] x = "decoder" -> Made(b, "code") /\ Made(b, "errors") /\ DecoderOk(cfg)

BuildOne(cfg, b, x) ==
    LET v == CASE x = "code" -> cfg.code
               [] x = "device" -> cfg.dev
               [] x = "errors" -> [errs |-> cfg.errs, on |-> b.code[1]]
               [] x = "circuit" -> [on |-> b.code[1], errs |-> b.errors[1], log |-> cfg.log]
               [] x = "decoder" -> [on |-> b.code[1], errs |-> b.errors[1], dec |-> cfg.dec,
                                    weighted |-> cfg.weighted]
    IN  [b EXCEPT ![x] = <<v>>]

BuildAll(cfg, b) == FoldLeft(LAMBDA acc, x : BuildOne(cfg, acc, x), b, Order)
CanBuildAll(cfg) == DecoderOk(cfg)

\* Asking for the code builds it, the other parts have to be there.
Access(cfg, b, x) == IF x = "code" /\ ~Made(b, "code") THEN BuildOne(cfg, b, "code") ELSE b
CanAccess(b, x) == x = "code" \/ Made(b, x)

\* All parts belong to each other, and to the configuration.
Coherent(b) == /\ \A x \in Parts : Made(b, x)
               /\ b.errors[1].on = b.code[1]
               /\ b.circuit[1].on = b.code[1] /\ b.circuit[1].errs = b.errors[1]
               /\ b.decoder[1].on = b.code[1] /\ b.decoder[1].errs = b.errors[1]
UpToDate(cfg, b) == /\ Coherent(b)
                    /\ b.code[1] = cfg.code /\ b.device[1] = cfg.dev
                    /\ b.errors[1].errs = cfg.errs /\ b.circuit[1].log = cfg.log
                    /\ b.decoder[1].dec = cfg.dec /\ b.decoder[1].weighted = cfg.weighted

(* --- what an experiment finds ------------------------------------------------- *)
\* The size of the codes: qubits, measured stabilizers, logical qubits.
Shape(name, L) ==
    CASE name = "RepetitionCode" -> [n |-> L, s |-> L - 1, k |-> 1]
      [] name = "PlanarCode" -> [n |-> L * L + (L - 1) * (L - 1), s |-> 2 * L * (L - 1), k |-> 1]
      [] name = "RotatedPlanarCode" -> [n |-> L * L, s |-> L * L - 1, k |-> 1]
      [] name = "ToricCode" -> [n |-> 2 * L * L, s |-> 2 * L * L, k |-> 2]
      [] name = "FiveQubitCode" -> [n |-> 5, s |-> 4, k |-> 1]
      [] name = "ShorCode" -> [n |-> 9, s |-> 8, k |-> 1]

\* Does the same error e in every one of R rounds let the experiment fail?
\* 0 no, 1 yes, -1 that depends on the decoder.
Flipped(code, sel, e) == \E i \in DOMAIN sel : Anti(code.logs[sel[i]], e)
Fails(name, L, code, sel, R, e) ==
    LET w == Cardinality(Support(e)) IN
    IF Undetected(code, e) THEN IF R % 2 = 1 /\ Flipped(code, sel, e) THEN 1 ELSE 0
    ELSE IF R > 1 THEN -1
    ELSE CASE name \in {"PlanarCode", "RotatedPlanarCode", "ToricCode"} -> IF 2 * w < L THEN 0 ELSE -1
           [] name = "RepetitionCode" /\ e.z = {} ->
                IF 2 * w < L THEN 0
                ELSE IF 2 * w > L THEN IF Flipped(code, sel, PauliOp(0..(L - 1), {}, {})) THEN 1 ELSE 0
                ELSE -1
           [] OTHER -> -1

\* Independent errors of probability 1/4 on each of L qubits of a repetition
\* code: the number of the 4^L cases in which a majority, or an odd number, is
\* hit.
Subsets(L) == SUBSET (1..L)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Count(L, Hit(_)) == LET w(S) == IF Hit(S) THEN Pow(3, L - Cardinality(S)) ELSE 0
                    IN  FoldSet(LAMBDA S, a : w(S) + a, 0, Subsets(L))
Majority(L) == Count(L, LAMBDA S : 2 * Cardinality(S) > L)
OddHits(L) == Count(L, LAMBDA S : Cardinality(S) % 2 = 1)
\* Odds of failure as <<a, b>> for a / b.
Odds(L, R, err, log) ==
    CASE err = "X" /\ log = "Z" -> <<Majority(L), Pow(4, L)>>
      [] err = "Z" /\ log = "X" -> <<Pow(2, L * R) - 1, Pow(2, L * R + 1)>>
      [] OTHER -> <<0, 1>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
\* k failures of N within five standard deviations.
Likely(k, N, odds) ==
    LET g == Gcd(odds[1], odds[2])
        a == odds[1] \div g
        b == odds[2] \div g
        d == Abs(k * b - a * N)
    IN  d < 46000 /\ d * d <= 25 * N * a * (b - a)

(* --- the decoder of an experiment with a repetition code ---------------------- *)
\* w[q + 1] : the cost of an X error on qubit q; the errors that fit a syndrome
\* at the lowest cost.
Cost(w, S) == FoldSet(LAMBDA q, a : w[q + 1] + a, 0, S)
Fitting(L, syn) == {S \in SUBSET (0..(L - 1)) : \A i \in 1..(L - 1) : Odd(S \cap {i - 1, i}) = (i \in syn)}
Cheapest(L, w, syn) == LET f == Fitting(L, syn)
                           m == Min({Cost(w, S) : S \in f})
                       IN  {S \in f : Cost(w, S) = m}
=============================================================================
