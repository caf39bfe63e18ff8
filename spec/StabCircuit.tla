----------------------------- MODULE StabCircuit -----------------------------
(***************************************************************************)
(* Textbook semantics of plaquette circuits (docs/ref/circuits.rst).        *)
(*                                                                         *)
(* A machine state is                                                       *)
(*   [tab     |-> stabilizer tableau,                                       *)
(*    meas    |-> measurement record so far (sequence of bits),             *)
(*    eras    |-> erasure record so far (sequence of bits),                 *)
(*    inErr   |-> inside an ERROR block,                                    *)
(*    applied |-> some branch of the current block was applied,             *)
(*    branch  |-> the current branch is the one being applied].             *)
(*                                                                         *)
(* An instruction is [g |-> name, q |-> <<qubits>>, p |-> <<probability     *)
(* numerators>>, i |-> inner gate name or ""]; probabilities are p / PD.    *)
(*                                                                         *)
(* Succ(st, ins) is the finite distribution of successor states, as a       *)
(* sequence of [n, d, st] (weight n/d); weights add up to one.              *)
(***************************************************************************)
EXTENDS PauliGroup, SequencesExt, TLC

CONSTANT PD          \* common denominator of all probabilities

Start(n) == [tab |-> ZeroTab(n), meas |-> <<>>, eras |-> <<>>,
             inErr |-> FALSE, applied |-> FALSE, branch |-> FALSE]

One(st) == << [n |-> 1, d |-> 1, st |-> st] >>
Scale(outs, n, d) == [k \in DOMAIN outs |->
                        [outs[k] EXCEPT !.n = @ * n, !.d = @ * d]]

RECURSIVE BindFrom(_, _, _)
BindFrom(outs, F(_), k) ==
    IF k > Len(outs) THEN <<>>
    ELSE Scale(F(outs[k].st), outs[k].n, outs[k].d) \o BindFrom(outs, F, k + 1)
\* Sequential composition of distributions.
Bind(outs, F(_)) == BindFrom(outs, F, 1)

RECURSIVE ForEach(_, _, _, _)
\* Apply F(st, q) for the qubits of qs in order.
ForEach(outs, F(_,_), qs, k) ==
    IF k > Len(qs) THEN outs
    ELSE ForEach(Bind(outs, LAMBDA st : F(st, qs[k])), F, qs, k + 1)

RECURSIVE ForPairs(_, _, _, _)
ForPairs(st, F(_,_,_), qs, k) ==
    IF k + 1 > Len(qs) THEN st
    ELSE ForPairs(F(st, qs[k], qs[k+1]), F, qs, k + 2)

WithTab(st, t) == [st EXCEPT !.tab = t]
ApplyPauli(st, c, q) ==
    IF c = 0 THEN st
    ELSE WithTab(st, MapTab(st.tab, LAMBDA r : PauliGate(r, PauliOfCode(c, q), {0})))

UH(st, q) == One(WithTab(st, MapTab(st.tab, LAMBDA r : HGate(r, q))))
UCX(st, c, t) == WithTab(st, MapTab(st.tab, LAMBDA r : CXGate(r, c, t)))
UCZ(st, c, t) == WithTab(st, MapTab(st.tab, LAMBDA r : CZGate(r, c, t)))

Bit(form) == IF 0 \in form THEN 1 ELSE 0
Form(bit) == IF bit = 1 THEN {0} ELSE {}

\* Projective measurement of Z on q; Rec(st, outcome) builds the result.
MeasureZ(st, q, Rec(_,_)) ==
    IF IsRandom(st.tab, PZ(q))
    THEN << [n |-> 1, d |-> 2, st |-> Rec(WithTab(st, Collapse(st.tab, PZ(q), {})), 0)],
            [n |-> 1, d |-> 2, st |-> Rec(WithTab(st, Collapse(st.tab, PZ(q), {0})), 1)] >>
    ELSE One(Rec(st, Bit(DetOutcome(st.tab, PZ(q)))))

MGate(st, q) == MeasureZ(st, q, LAMBDA s, b : [s EXCEPT !.meas = Append(@, b)])
RGate(st, q) == MeasureZ(st, q, LAMBDA s, b : IF b = 1 THEN ApplyPauli(s, 1, q) ELSE s)

Depol(st, q) == [c \in 1..3 |-> [n |-> 1, d |-> 3, st |-> ApplyPauli(st, c, q)]]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Erase(st, p, q) ==
    [c \in 1..5 |->
        IF c = 5
        THEN [n |-> PD - p, d |-> PD, st |-> [st EXCEPT !.eras = Append(@, 0)]]
        ELSE [n |-> p, d |-> 4 * PD,
              st |-> ApplyPauli([st EXCEPT !.eras = Append(@, 1)], c - 1, q)]]

\* ps: numerators of X, Y, Z.
Pauli1(st, ps, q) ==
    [c \in 1..4 |->
        IF c = 1 THEN [n |-> PD - SumSeq(ps), d |-> PD, st |-> st]
        ELSE [n |-> ps[c-1], d |-> PD, st |-> ApplyPauli(st, c - 1, q)]]

\* ps: numerators of IX IY IZ XI XX ... ZZ (first letter: first qubit).
Pauli2(st, ps, q1, q2) ==
    [c \in 1..16 |->
        IF c = 1 THEN [n |-> PD - SumSeq(ps), d |-> PD, st |-> st]
        ELSE [n |-> ps[c-1], d |-> PD,
              st |-> ApplyPauli(ApplyPauli(st, (c-1) \div 4, q1), (c-1) % 4, q2)]]

Possible(outs) == SelectSeq(outs, LAMBDA o : o.n > 0)

\* A gate outside of / inside an error block.
Gate(st, g, q, p) == Possible(
    CASE g = "X" -> ForEach(One(st), LAMBDA s, a : One(ApplyPauli(s, 1, a)), q, 1)
      [] g = "Y" -> ForEach(One(st), LAMBDA s, a : One(ApplyPauli(s, 2, a)), q, 1)
      [] g = "Z" -> ForEach(One(st), LAMBDA s, a : One(ApplyPauli(s, 3, a)), q, 1)
      [] g = "H" -> ForEach(One(st), UH, q, 1)
      [] g = "CX" -> One(ForPairs(st, UCX, q, 1))
      [] g = "CZ" -> One(ForPairs(st, UCZ, q, 1))
      [] g = "M" -> ForEach(One(st), MGate, q, 1)
      [] g = "R" -> ForEach(One(st), RGate, q, 1)
      [] g = "DEPOLARIZE" -> ForEach(One(st), Depol, q, 1)
      [] g = "E_ERASE" -> Erase(st, p[1], q[1])
      [] g = "E_PAULI" -> Pauli1(st, p, q[1])
      [] g = "E_PAULI2" -> Pauli2(st, p, q[1], q[2]))

\* ERROR_CONTINUE / ERROR_ELSE are only meaningful inside a block.
Accepts(st, ins) == ins.g \in {"ERROR_CONTINUE", "ERROR_ELSE"} => st.inErr

Taken(st) == [st EXCEPT !.inErr = TRUE, !.applied = TRUE, !.branch = TRUE]
NotTaken(st) == [st EXCEPT !.inErr = TRUE, !.branch = FALSE]

TryBranch(st, ins) ==
    Possible(Scale(Gate(Taken(st), ins.i, ins.q, <<>>), ins.p[1], PD)
             \o << [n |-> PD - ins.p[1], d |-> PD, st |-> NotTaken(st)] >>)

Succ(st, ins) ==
    CASE ins.g = "ERROR" -> TryBranch([st EXCEPT !.applied = FALSE], ins)
      [] ins.g = "ERROR_ELSE" -> IF st.applied THEN One(NotTaken(st))
                                 ELSE TryBranch(st, ins)
      [] ins.g = "ERROR_CONTINUE" -> IF st.branch
                                     THEN Gate(st, ins.i, ins.q, <<>>)
                                     ELSE One(st)
      [] OTHER -> Gate([st EXCEPT !.inErr = FALSE], ins.g, ins.q, ins.p)

-----------------------------------------------------------------------------
(* Sums of weights, as fractions <<n, d>> over a common denominator.        *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
FAdd(f, g) == LET gg == Gcd(f[2], g[2])
                  d == (f[2] \div gg) * g[2]
                  n == f[1] * (d \div f[2]) + g[1] * (d \div g[2])
                  r == Gcd(n, d)
              IN  <<n \div r, d \div r>>
RECURSIVE WeightFrom(_, _, _)
WeightFrom(outs, P(_), k) ==
    IF k > Len(outs) THEN <<0, 1>>
    ELSE LET rest == WeightFrom(outs, P, k + 1)
         IN  IF P(outs[k]) THEN FAdd(<<outs[k].n, outs[k].d>>, rest) ELSE rest
Weight(outs, P(_)) == WeightFrom(outs, P, 1)

\* Same observable outcome: records and quantum state.
SameObs(s, t) == s.meas = t.meas /\ s.eras = t.eras /\ SameState(s.tab, t.tab)
=============================================================================
