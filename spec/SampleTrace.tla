----------------------------- MODULE SampleTrace -----------------------------
(***************************************************************************)
(* Raw results of an error correction experiment and what is made of them.  *)
(* Layout: results of the measured logicals (one each with ancillas, one    *)
(* per qubit otherwise), rounds + 1 blocks of stabilizer results, results   *)
(* of the logicals again.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
RECURSIVE Total(_, _)
Total(w, k) == IF k = 0 THEN 0 ELSE w[k] + Total(w, k - 1)
RECURSIVE Parity(_, _, _)
Parity(raw, a, b) == IF a > b THEN 0 ELSE (raw[a] + Parity(raw, a + 1, b)) % 2
Flip(a, b) == (a + b) % 2

Clause(cs) ==
    LET K == Len(cs.w)
        S == cs.nstab
        W == Total(cs.w, K)
        In(k) == Parity(cs.raw, Total(cs.w, k - 1) + 1, Total(cs.w, k))
        O == W + (cs.rounds + 1) * S
        Out(k) == Parity(cs.raw, O + Total(cs.w, k - 1) + 1, O + Total(cs.w, k))
        Gen(r, i) == cs.raw[W + (r - 1) * S + i]
        E == Len(cs.eras)
        fits == /\ Len(cs.raw) = 2 * W + (cs.rounds + 1) * S
                /\ E = 0 \/ E = cs.rounds * cs.n
    IN
    IF ~fits THEN IF cs.err = "" THEN "results of the wrong length were accepted" ELSE ""
    ELSE IF cs.err # "" THEN "valid results were refused: " \o cs.err
    ELSE IF cs.out.initial # [k \in 1..K |-> In(k)] THEN "initial values of the logical operators"
    ELSE IF cs.out.final # [k \in 1..K |-> Out(k)] THEN "final values of the logical operators"
    ELSE IF cs.out.toggle # [k \in 1..K |-> Flip(In(k), Out(k))] THEN "toggles of the logical operators"
    ELSE IF cs.out.gens # [r \in 1..(cs.rounds + 1) |-> [i \in 1..S |-> Gen(r, i)]]
    THEN "stabilizer results"
    ELSE IF cs.out.syndrome # [r \in 1..cs.rounds |-> [i \in 1..S |-> Flip(Gen(r + 1, i), Gen(r, i))]]
    THEN "syndrome"
    ELSE IF cs.out.eras # (IF E = 0 THEN <<>>
                           ELSE [r \in 1..cs.rounds |-> [q \in 1..cs.n |-> cs.eras[(r - 1) * cs.n + q]]])
    THEN "erasure information"
    ELSE IF ~cs.intact THEN "the raw results were modified"
    ELSE ""

Init == c \in DOMAIN Cases /\ done = FALSE
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ LET b == Clause(Cases[c]) IN
             PrintT(ToJson([id |-> Cases[c].id, bad |-> IF b = "" THEN <<>> ELSE <<0, b>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
