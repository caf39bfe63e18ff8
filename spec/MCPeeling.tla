----------------------------- MODULE MCPeeling ------------------------------
(* All erasures and syndromes that they explain, every spanning forest and   *)
(* every order of peeling: the invariant of peeling holds, all is peeled,    *)
(* and the correction is one of the erased edges with the given syndrome.    *)
EXTENDS Peeling, TLC
CONSTANTS Graphs
VARIABLES k, sel, syn0, st

Path(m) == [n |-> m, edges |-> [i \in 1..(m + 1) |-> IF i = 1 THEN {0} ELSE IF i = m + 1 THEN {m - 1} ELSE {i - 2, i - 1}]]
Ring4 == [n |-> 4, edges |-> <<{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}>>]
Odd1 == [n |-> 3, edges |-> <<{0}, {0, 1}, {1, 2}, {2}, {2}, {0, 2}>>]
Two == [n |-> 5, edges |-> <<{0}, {0, 1}, {1}, {2, 3}, {3, 4}, {2, 4}, {1, 2}>>]
All == <<Path(2), Path(4), Ring4, Odd1, Two>>
E == All[k].edges
Init == /\ k \in Graphs
        /\ sel \in SUBSET DOMAIN All[k].edges
        /\ \E err \in SUBSET sel : syn0 = BoundaryOf(All[k].edges, err)
        /\ \E F \in SUBSET sel : /\ SpanningForest(All[k].edges, sel, F)
                                 /\ st = [F |-> F, vs |-> Ends(All[k].edges, sel), syn |-> syn0, corr |-> {}]
Next == /\ \E v \in Leaves(E, st.F, st.vs) : st' = PeelAt(E, st, v)
        /\ UNCHANGED <<k, sel, syn0>>
Spec == Init /\ [][Next]_<<k, sel, syn0, st>> /\ WF_<<k, sel, syn0, st>>(Next)
Balance == SymDiff(BoundaryOf(E, st.corr), st.syn) = syn0
Inside == st.corr \subseteq sel
KeepsForest == Acyclic(E, st.F, st.vs)
\* A vertex peeled with no edge left has no syndrome left.
NoLoss == st.vs = {} => st.syn = {} /\ Explains(E, st.corr, syn0)
LeafLeft == st.vs # {} => Leaves(E, st.F, st.vs) # {}
Ends0 == <>(st.vs = {})
=============================================================================
