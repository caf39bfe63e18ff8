----------------------------- MODULE MCSynGraph -----------------------------
(* For every selection F of edges of small codes: the boundary of F, summed  *)
(* over the rounds, is the set of stabilizers its Pauli frame anticommutes   *)
(* with; boundaries are additive; edges with the same ends differ by an      *)
(* undetected operator; a selection without boundary is undetected.          *)
EXTENDS SynGraph
CONSTANTS R, Big
VARIABLES cd, ps, B, F

Rep(n) == [n |-> n, stabs |-> [j \in 1..(n - 1) |-> PauliOp({}, {j - 1, j}, {})],
           logs |-> <<PauliOp(0..(n - 1), {}, {}), PZ(0)>>]
Detect == [n |-> 4, stabs |-> <<PauliOp(0..3, {}, {}), PauliOp({}, 0..3, {})>>,
           logs |-> <<PauliOp({0, 1}, {}, {}), PauliOp({}, {0, 2}, {}), PauliOp({0, 2}, {}, {}), PauliOp({}, {0, 1}, {})>>]
Rot2 == [n |-> 4, stabs |-> <<PauliOp(0..3, {}, {}), PauliOp({}, {0, 1}, {}), PauliOp({}, {2, 3}, {})>>,
         logs |-> <<PauliOp({0, 1}, {}, {}), PauliOp({}, {0, 2}, {})>>]
Xzzx2 == ConjCode(Rot2, {1, 2})
Codes == <<Rep(3), Detect, Rot2, Xzzx2>> \o (IF Big THEN <<Rep(4), Rep(5)>> ELSE <<>>)
\* Constant tables: edges as a sequence, their ends and operators.
Table == [k \in DOMAIN Codes |->
            LET es == SetToSeq(Edges(Codes[k], R))
            IN  [i \in DOMAIN es |-> [e |-> es[i], ends |-> EndsOf(Codes[k], es[i]), op |-> OpOf(es[i])]]]
ASSUME \A k \in DOMAIN Codes : Valid(Codes[k]) /\ Buildable(Codes[k])
ASSUME \A k \in DOMAIN Codes : \A i, j \in DOMAIN Table[k] :
           Table[k][i].ends = Table[k][j].ends => Undetected(Codes[k], Mul(Table[k][i].op, Table[k][j].op))

\* Decide edge after edge whether it is selected; B: boundary, F: frame so far.
Init == cd \in DOMAIN Codes /\ ps = 0 /\ B = {} /\ F = Identity
Next == /\ ps < Len(Table[cd]) /\ ps' = ps + 1 /\ UNCHANGED cd
        /\ \/ UNCHANGED <<B, F>>
           \/ /\ B' = Xor(B, Table[cd][ps + 1].ends)
              /\ F' = [Mul(F, Table[cd][ps + 1].op) EXCEPT !.s = {}]
Spec == Init /\ [][Next]_<<cd, ps, B, F>>
Explains == /\ Summed(Codes[cd], {}, B) = Syndrome(Codes[cd], F)
            /\ (B = {} => Undetected(Codes[cd], F))
=============================================================================
