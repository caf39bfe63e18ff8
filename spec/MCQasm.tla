-------------------------------- MODULE MCQasm --------------------------------
(* Programs with the same per-qubit operation sequences have the same exact   *)
(* outcome distributions: swapping any two adjacent independent operations of *)
(* any short program changes neither.                                         *)
EXTENDS Qasm, TLC
S == INSTANCE StabCircuit WITH PD <- 4
CONSTANT MaxLen
VARIABLES prog
Ins == {[g |-> g, q |-> <<q>>, p |-> <<>>, i |-> ""] : g \in {"H", "X", "R"}, q \in 0..2}
       \cup {[g |-> g, q |-> q, p |-> <<>>, i |-> ""] : g \in {"CX", "CZ"}, q \in {<<0,1>>, <<2,1>>}}
Init == prog = <<>>
Next == Len(prog) < MaxLen /\ \E x \in Ins : prog' = Append(prog, x)
Spec == Init /\ [][Next]_prog
RECURSIVE Run(_, _)
Run(st, p) == IF p = <<>> THEN st ELSE Run(S!Bind(st, LAMBDA x : S!Succ(x, Head(p))), Tail(p))
Dist(p) == Run(S!One(S!Start(3)), p)
SwapAt(p, k) == [p EXCEPT ![k] = p[k+1], ![k+1] = p[k]]
\* up to the order of branches; all programs here have equal-weight branches
Same(a, b) == /\ \A i \in DOMAIN a : \E j \in DOMAIN b : S!SameState(a[i].st.tab, b[j].st.tab) /\ a[i].n * b[j].d = b[j].n * a[i].d
              /\ \A j \in DOMAIN b : \E i \in DOMAIN a : S!SameState(a[i].st.tab, b[j].st.tab)
Exchange == \A k \in 1..(Len(prog) - 1) :
    SameTrace(Unroll(prog, 0), Unroll(SwapAt(prog, k), 0)) => Same(Dist(prog), Dist(SwapAt(prog, k)))
=============================================================================
