----------------------------- MODULE CodesTrace -----------------------------
(* Recorded codes: built-in families and codes from operators, their          *)
(* validity check, counts, equality and logical-operator selection.           *)
EXTENDS StabCode, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE

SetOf(s) == {s[i] : i \in DOMAIN s}
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Ops(rows) == [i \in DOMAIN rows |-> Row(rows[i])]
Code(o) == [n |-> o.n, stabs |-> Ops(o.stabs), logs |-> Ops(o.logs)]

Family(f, L) ==
    CASE f = "repetition" -> [n |-> L, s |-> L - 1, k |-> 1, d |-> 1]
      [] f = "toric" -> [n |-> 2*L*L, s |-> 2*L*L, k |-> 2, d |-> L]
      [] f = "planar" -> [n |-> L*L + (L-1)*(L-1), s |-> 2*L*(L-1), k |-> 1, d |-> L]
      [] f = "rotated" -> [n |-> L*L, s |-> L*L - 1, k |-> 1, d |-> L]
      [] f = "xzzx" -> [n |-> L*L, s |-> L*L - 1, k |-> 1, d |-> L]
      [] f = "five" -> [n |-> 5, s |-> 4, k |-> 1, d |-> 3]
      [] f = "shor" -> [n |-> 9, s |-> 8, k |-> 1, d |-> 3]

Parity(pos) == {q \in 0..(Len(pos) - 1) : ((pos[q+1][1] \div 2) + (pos[q+1][2] \div 2)) % 2 = 1}
DistanceOK(f, L, code, pos) ==
    CASE f = "repetition" -> MinChain(code, PX) = L /\ MinChain(code, PZ) = 1
      [] f \in {"toric", "planar", "rotated"} -> IsCSS(code) /\ Dist(code) = L
      [] f = "xzzx" -> LET cc == ConjCode(code, Parity(pos)) IN IsCSS(cc) /\ Dist(cc) = L
      [] OTHER -> DistanceIs(code, Family(f, L).d) \/
                  \* the logical operators of these two are not of minimum weight
                  ( /\ \A w \in 1..2 : \A e \in Errors(0..(code.n - 1), w) : ~IsLogical(code, e)
                    /\ \E e \in Errors(0..(code.n - 1), 3) : IsLogical(code, e) )
LocalOK(f, code) == f \in {"toric", "planar", "rotated", "xzzx", "repetition"} =>
    \A i \in DOMAIN code.stabs : Cardinality(Support(code.stabs[i])) \in 2..4

Counts(o, code) ==
    /\ o.counts = [n_data |-> code.n, n_stab |-> Len(code.stabs), n_log |-> Len(code.logs),
                   k |-> NLog(code), n_ext |-> code.n + Len(code.stabs) + Len(code.logs)]
    /\ Ops(o.lx) = [i \in 1..NLog(code) |-> code.logs[2*i-1]]
    /\ Ops(o.lz) = [i \in 1..NLog(code) |-> code.logs[2*i]]

Builtin ==
    LET code == Code(CS) F == Family(CS.family, CS.size) IN
    IF CS.err # "" THEN "cannot be built: " \o CS.err
    ELSE IF code.n # F.n \/ Len(code.stabs) # F.s \/ NLog(code) # F.k THEN "number of qubits or operators"
    ELSE IF WhyInvalid(code) # "" THEN WhyInvalid(code)
    ELSE IF ~RankOK(code) THEN "rank of the generators"
    ELSE IF ~LocalOK(CS.family, code) THEN "weight of the generators"
    ELSE IF ~DistanceOK(CS.family, CS.size, code, CS.pos) THEN "distance"
    ELSE IF ~Counts(CS, code) THEN "advertised counts"
    ELSE IF CS.rounds # CS.rounds_shown THEN "number of rounds"
    ELSE IF CS.check # "" \/ CS.check_rank # "" THEN "validity check rejects a valid code"
    ELSE IF ~CS.aligned THEN "lattice and operators disagree"
    ELSE ""

Checked(code) ==
    IF ValidNoRank(code) /\ CS.check # "" THEN "validity check rejects a valid code"
    ELSE IF ~ValidNoRank(code) /\ CS.check = "" THEN "validity check accepts an invalid code"
    ELSE IF Valid(code) /\ CS.check_rank # "" THEN "rank check rejects a valid code"
    ELSE IF ~Valid(code) /\ CS.check_rank = "" THEN "rank check accepts an invalid code"
    ELSE ""

FromOps ==
    LET code == Code(CS) want == Code(CS.given) IN
    IF CS.err # "" THEN "cannot be built: " \o CS.err
    ELSE IF code # want THEN "operators differ from the given ones"
    ELSE IF ~Counts(CS, code) THEN "advertised counts"
    ELSE IF CS.rounds # CS.rounds_shown THEN "number of rounds"
    ELSE IF Checked(code) # "" THEN Checked(code)
    ELSE IF ~CS.aligned THEN "lattice and operators disagree"
    ELSE ""

\* Equality of codes: the same operators in the same order.
Equal == IF CS.eq # (Code(CS.a) = Code(CS.b)) \/ CS.ne = CS.eq THEN "equality of codes" ELSE ""

Refused == IF CS.err = "" THEN "accepted although there is no such code" ELSE ""

\* Selecting one logical operator per logical qubit.
IndexOf(k, ch) == IF ch = "X" THEN 2 * (k - 1) ELSE 2 * (k - 1) + 1
Select ==
    LET ok == Len(CS.sel) = CS.k /\ \A i \in DOMAIN CS.sel :
                  IF CS.byname THEN CS.sel[i] \in {"X", "Z"} ELSE CS.sel[i] \in 0..(2 * CS.k - 1)
    IN  IF ok /\ CS.err # "" THEN "valid selection refused"
        ELSE IF ~ok /\ CS.err = "" THEN "invalid selection accepted"
        ELSE IF ok /\ CS.got # (IF CS.byname THEN [i \in DOMAIN CS.sel |-> IndexOf(i, CS.sel[i])] ELSE CS.sel)
             THEN "selected operators"
        ELSE ""

Clause == CASE CS.kind = "builtin" -> Builtin
            [] CS.kind = "fromops" -> FromOps
            [] CS.kind = "signed" -> IF CS.made # CS.given THEN "lattice of other operators than the given ones"
                                   ELSE Checked(Code(CS.given))
            [] CS.kind = "equal" -> Equal
            [] CS.kind = "refuse" -> Refused
            [] CS.kind = "select" -> Select
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> IF Clause = "" THEN <<>> ELSE <<1, Clause>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
