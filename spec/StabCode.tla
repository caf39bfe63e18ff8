------------------------------ MODULE StabCode ------------------------------
(***************************************************************************)
(* Stabilizer codes.  A code is [n |-> number of data qubits, stabs |->     *)
(* sequence of Pauli bodies, logs |-> <<X1, Z1, X2, Z2, ...>>].             *)
(***************************************************************************)
EXTENDS PauliGroup, SequencesExt, FiniteSetsExt

\* Bodies as sets of numbers 2q (X part) and 2q+1 (Z part), for linear algebra.
Vec(p) == {2 * q : q \in p.x} \cup {2 * q + 1 : q \in p.z}

RECURSIVE RankOf(_)
RankOf(vs) ==
    LET ne == vs \ {{}} IN
    IF ne = {} THEN 0
    ELSE LET v == CHOOSE w \in ne : TRUE
             k == CHOOSE j \in v : TRUE
         IN  1 + RankOf({IF k \in w THEN Xor(w, v) ELSE w : w \in ne \ {v}})
Rank(ops) == RankOf({Vec(ops[i]) : i \in DOMAIN ops})

NLog(code) == Len(code.logs) \div 2
StabsCommute(code) == \A i, j \in DOMAIN code.stabs : ~Anti(code.stabs[i], code.stabs[j])
LogsCommuteWithStabs(code) ==
    \A i \in DOMAIN code.stabs, j \in DOMAIN code.logs : ~Anti(code.stabs[i], code.logs[j])
Partner(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
LogsPair(code) ==
    \A i, j \in DOMAIN code.logs : Anti(code.logs[i], code.logs[j]) = (j = Partner(i))
RankOK(code) == Rank(code.stabs) = code.n - NLog(code)
Nontrivial(code) == \A i \in DOMAIN code.stabs : Support(code.stabs[i]) # {}
InRange(code) == \A i \in DOMAIN code.stabs : Support(code.stabs[i]) \subseteq 0..(code.n - 1)
LogsInRange(code) == \A i \in DOMAIN code.logs : Support(code.logs[i]) \subseteq 0..(code.n - 1)

ValidNoRank(code) == StabsCommute(code) /\ LogsCommuteWithStabs(code) /\ LogsPair(code)
Valid(code) == ValidNoRank(code) /\ RankOK(code)
WhyInvalid(code) ==
    IF ~InRange(code) \/ ~LogsInRange(code) THEN "operator outside the data qubits"
    ELSE IF ~Nontrivial(code) THEN "identity among the generators"
    ELSE IF ~StabsCommute(code) THEN "stabilizer generators do not commute"
    ELSE IF ~LogsCommuteWithStabs(code) THEN "logical operators do not commute with the stabilizers"
    ELSE IF ~LogsPair(code) THEN "commutation relations of the logical operators"
    ELSE ""

-----------------------------------------------------------------------------
(* What an error does: the stabilizers and logicals it anticommutes with.   *)
Syndrome(code, e) == {i \in DOMAIN code.stabs : Anti(code.stabs[i], e)}
LogFlips(code, e) == {i \in DOMAIN code.logs : Anti(code.logs[i], e)}
Undetected(code, e) == Syndrome(code, e) = {}
IsLogical(code, e) == Undetected(code, e) /\ LogFlips(code, e) # {}

(* Minimum weight of a logical operator, by brute force: no error of weight *)
(* below d is a logical operator, some error of weight d is.                *)
RECURSIVE Errors(_, _)
Errors(qs, w) == IF w = 0 THEN {Identity}
                 ELSE UNION {{PauliOp(e.x \cup a.x, e.z \cup a.z, {}) :
                                  a \in {PX(q), PY(q), PZ(q)},
                                  e \in Errors({r \in qs : r < q}, w - 1)} : q \in qs}
DistanceIs(code, d) ==
    /\ \A w \in 1..(d - 1) : \A e \in Errors(0..(code.n - 1), w) : ~IsLogical(code, e)
    /\ \E i \in DOMAIN code.logs : Cardinality(Support(code.logs[i])) = d

(* For codes in which every single-qubit X (Z) flips at most two            *)
(* stabilizers: shortest undetectable chain of X's (Z's) that flips a       *)
(* logical operator.  Nodes: stabilizers and 0 (the boundary).              *)
Ends(code, e) == LET s == Syndrome(code, e) IN IF Cardinality(s) = 2 THEN s ELSE s \cup {0}
Links(code, P(_)) == {<<Ends(code, P(q)), LogFlips(code, P(q))>> : q \in 0..(code.n - 1)}
Graphlike(code, P(_)) == \A q \in 0..(code.n - 1) : Cardinality(Syndrome(code, P(q))) <= 2
RECURSIVE Grow(_, _, _, _, _)
\* Number of steps from <<v, {}>> to <<v, nonempty>>; bound + 1 if more than bound.
Grow(links, v, seen, front, d) ==
    IF \E s \in seen : s[1] = v /\ s[2] # {} THEN d
    ELSE IF front = {} THEN 9999
    ELSE LET nxt == UNION {{<<IF Cardinality(l[1]) = 1 THEN s[1] ELSE CHOOSE t \in l[1] : t # s[1],
                              Xor(s[2], l[2])>> : l \in {l \in links : s[1] \in l[1]}} : s \in front}
         IN  Grow(links, v, seen \cup nxt, nxt \ seen, d + 1)
MinChain(code, P(_)) ==
    LET links == Links(code, P)
    IN  Min({Grow(links, v, {<<v, {}>>}, {<<v, {}>>}, 0) : v \in {0} \cup DOMAIN code.stabs})
Dist(code) == Min({MinChain(code, PX), MinChain(code, PZ)})

(* Hadamards on a set of qubits (turns XZZX codes into CSS codes).           *)
Conj(p, H) == PauliOp((p.x \ H) \cup (p.z \cap H), (p.z \ H) \cup (p.x \cap H), {})
ConjCode(code, H) == [code EXCEPT !.stabs = [i \in DOMAIN @ |-> Conj(@[i], H)],
                                  !.logs = [i \in DOMAIN @ |-> Conj(@[i], H)]]
IsCSS(code) == \A i \in DOMAIN code.stabs : code.stabs[i].x = {} \/ code.stabs[i].z = {}
=============================================================================
