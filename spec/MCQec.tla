------------------------------- MODULE MCQec -------------------------------
(***************************************************************************)
(* The obligations of QecCircuit are met by a reference circuit in which    *)
(* every operator is measured on its own, with its qubits in any order, for *)
(* all operator selections, both ways of measuring logicals; and they are   *)
(* not met once any single H, CX, CZ or R of the last round is left out.    *)
(***************************************************************************)
EXTENDS QecCircuit

CONSTANTS Rounds

X(S) == PauliOp(S, {}, {})
Z(S) == PauliOp({}, S, {})
Codes == <<
  [n |-> 3, stabs |-> <<Z({0, 1}), Z({1, 2})>>, logs |-> <<X({0, 1, 2}), Z({2})>>],
  [n |-> 4, stabs |-> <<X({0, 1, 2, 3}), Z({0, 1, 2, 3})>>,
   logs |-> <<X({0, 1}), Z({0, 2}), X({0, 2}), Z({0, 1})>>],
  [n |-> 5, stabs |-> <<PauliOp({0, 3}, {1, 2}, {}), PauliOp({1, 4}, {2, 3}, {}),
                        PauliOp({0, 2}, {3, 4}, {}), PauliOp({1, 3}, {0, 4}, {})>>,
   logs |-> <<X(0..4), Z(0..4)>>] >>

G(g, q) == [g |-> g, q |-> q]
RECURSIVE Entangle(_, _, _)
\* qs: the qubits of p in some order
Entangle(p, a, qs) ==
    IF qs = <<>> THEN <<>>
    ELSE <<G(IF qs[1] \in p.x THEN "CX" ELSE "CZ", <<a, qs[1]>>)>> \o Entangle(p, a, Tail(qs))
MeasureVia(p, a, ord) ==
    <<G("R", <<a>>), G("H", <<a>>)>> \o Entangle(p, a, ord) \o <<G("H", <<a>>), G("M", <<a>>)>>
RECURSIVE Alone(_, _, _)
Alone(p, qs, back) ==
    IF qs = <<>> THEN <<>>
    ELSE LET q == qs[1] h == IF q \in p.x THEN <<G("H", <<q>>)>> ELSE <<>>
         IN  h \o <<G("M", <<q>>)>> \o h \o Alone(p, Tail(qs), back)

InOrder(S, up) == IF up THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)
RECURSIVE Logs(_, _, _)
Logs(job, up, k) ==
    IF k > Len(job.sel) THEN <<>>
    ELSE LET p == job.code.logs[job.sel[k]]
         IN  (IF job.anc THEN MeasureVia(p, job.code.n + NS(job) + k - 1, InOrder(Support(p), up))
              ELSE Alone(p, InOrder(Support(p), up), TRUE)) \o Logs(job, up, k + 1)
RECURSIVE Stabs(_, _, _)
Stabs(job, up, i) ==
    IF i > NS(job) THEN <<>>
    ELSE LET p == job.code.stabs[i]
         IN  MeasureVia(p, job.code.n + i - 1, InOrder(Support(p), up)) \o Stabs(job, up, i + 1)
RECURSIVE Repeated(_, _, _)
Repeated(job, up, r) == IF r < 0 THEN <<>> ELSE Stabs(job, up, 1) \o Repeated(job, up, r - 1)
Reference(job, up) == Logs(job, up, 1) \o Repeated(job, up, job.rounds) \o Logs(job, up, 1)

RECURSIVE Exec(_, _, _, _)
Exec(job, prog, st, j) ==
    IF j > Len(prog) THEN st
    ELSE LET ins == prog[j]
             s1 == SymGate(st, ins.g, ins.q)
             r == IF ins.g = "M" THEN RoundAt(job, Len(s1.meas)) ELSE 0
             s2 == IF r = 1 /\ ~Prepared(job, s1) THEN [s1 EXCEPT !.meas = <<>>] ELSE s1
         IN  Exec(job, prog, IF r = 0 THEN s1 ELSE Inject(job, s2, r), j + 1)
Meets(job, prog) ==
    LET nq == job.code.n + NS(job) + Len(job.sel)
        st == Exec(job, prog, SymStart(nq), 1)
    IN  /\ Len(st.meas) = NMeas(job)
        /\ \A r \in 1..job.rounds : SyndromeOk(job, st.meas, r)
        /\ ToggleOk(job, st.meas)

Sels(code) == IF Len(code.logs) = 2 THEN {<<1>>, <<2>>} ELSE {<<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>, <<1, 2>>}
VARIABLES job, up, drop, ok
vars == <<job, up, drop, ok>>
Init == /\ \E i \in DOMAIN Codes : \E s \in Sels(Codes[i]), a \in BOOLEAN, r \in 1..Rounds :
               job = [code |-> Codes[i], sel |-> s, rounds |-> r, anc |-> a]
        /\ up \in BOOLEAN /\ drop = 0 /\ ok = TRUE
\* Every gate of the last round matters (resets: once the previous outcome varies).
RECURSIVE CountM(_, _)
CountM(prog, j) == IF j = 0 THEN 0 ELSE CountM(prog, j - 1) + (IF prog[j].g = "M" THEN 1 ELSE 0)
Drop == /\ drop = 0 /\ ~Refused(job) /\ Measurable(job)
        /\ LET prog == Reference(job, up) IN
           \E j \in DOMAIN prog :
             /\ prog[j].g # "M"
             /\ CountM(prog, j) \in (Wall(job) + job.rounds * NS(job))..(Wall(job) + (job.rounds + 1) * NS(job) - 1)
             /\ prog[j].g = "R" => job.rounds > 1
             /\ drop' = j
             /\ ok' = Meets(job, RemoveAt(prog, j))
        /\ UNCHANGED <<job, up>>
Spec == Init /\ [][Drop]_vars
ReferenceMeets == (drop = 0 /\ ~Refused(job) /\ Measurable(job)) => Meets(job, Reference(job, up))
Sensitive == drop # 0 => ~ok
=============================================================================
