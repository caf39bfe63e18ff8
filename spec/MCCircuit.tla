------------------------------ MODULE MCCircuit -----------------------------
(* Exhaustive check of StabCircuit: every program up to MaxLen instructions. *)
EXTENDS StabCircuit
CONSTANTS NQubits, MaxLen
Qb == 0..(NQubits-1)
Ins(g, q, p, i) == [g |-> g, q |-> q, p |-> p, i |-> i]
Alphabet ==
    {Ins(g, <<q>>, <<>>, "") : g \in {"H", "Y", "M", "R", "DEPOLARIZE"}, q \in Qb}
    \cup {Ins("CX", <<a, b>>, <<>>, "") : a, b \in Qb} \cup {Ins("CZ", <<0, 1>>, <<>>, "")}
    \cup {Ins("E_ERASE", <<q>>, <<1>>, "") : q \in Qb}
    \cup {Ins("E_PAULI", <<q>>, <<1, 1, 1>>, "") : q \in {0}}
    \cup {Ins("E_PAULI2", <<0, 1>>, <<1,0,0,0,0,0,1,0,0,0,0,0,0,0,1>>, "")}
    \cup {Ins(e, <<q>>, <<1>>, g) : e \in {"ERROR", "ERROR_ELSE"}, q \in {0}, g \in {"X", "M"}}
    \cup {Ins("ERROR_CONTINUE", <<1>>, <<>>, g) : g \in {"X", "H"}}
Legal == {ins \in Alphabet : Len(ins.q) = 2 => ins.q[1] # ins.q[2]}

VARIABLES st, len, blk
\* blk: number of branches applied in the current error block
vars == <<st, len, blk>>
Init == st = Start(NQubits) /\ len = 0 /\ blk = 0
Next == /\ len < MaxLen
        /\ \E ins \in Legal :
             /\ Accepts(st, ins)
             /\ LET outs == Succ(st, ins)
                IN \E k \in DOMAIN outs :
                     /\ st' = outs[k].st
                     /\ blk' = IF ins.g = "ERROR" THEN (IF st'.branch THEN 1 ELSE 0)
                               ELSE IF ins.g = "ERROR_ELSE" THEN blk + (IF st'.branch THEN 1 ELSE 0)
                               ELSE IF ins.g = "ERROR_CONTINUE" THEN blk ELSE 0
        /\ len' = len + 1
Spec == Init /\ [][Next]_vars

Valid == ValidTab(st.tab)
Pure == Len(st.tab.s) = NQubits
WeightsSumToOne == \A ins \in Legal : Accepts(st, ins) =>
                      Weight(Succ(st, ins), LAMBDA x : TRUE) = <<1, 1>>
\* Measuring again returns the same value and leaves the state alone.
Repeatable == \A q \in Qb : LET o1 == MGate(st, q) IN
    \A k \in DOMAIN o1 : LET o2 == MGate(o1[k].st, q) IN
        /\ Len(o2) = 1
        /\ LET m == o2[1].st.meas IN m[Len(m)] = m[Len(m) - 1]
        /\ SameState(o2[1].st.tab, o1[k].st.tab)
BlockInv == (st.branch => st.applied) /\ (st.inErr => st.applied = (blk = 1))
OneBranch == blk <= 1
ErasureCount == Len(st.eras) <= len
=============================================================================
