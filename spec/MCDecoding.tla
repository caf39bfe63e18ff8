----------------------------- MODULE MCDecoding -----------------------------
(* Union-find on small graphs, all syndromes, erasures and growth orders:    *)
(* it ends in a region that contains the erasure and explains the syndrome,  *)
(* it does not grow when the erasure explains the syndrome, and it corrects  *)
(* every error of t edges outside s erased ones with 2t + s < d (graphs of   *)
(* codes with distance d) if the smallest clusters grow first.  The minimum of the weighted problem is attained  *)
(* and is a lower bound (cross-check of the dynamic programming).            *)
EXTENDS Decoding, FiniteSetsExt, TLC
CONSTANTS Graphs,    \* which graphs
          Policy,    \* "any" order of growth, or the "smallest" clusters first
          Full       \* steps an edge takes to grow
VARIABLES k, err, era, g

\* edges, n, d, cut: edges crossed by a logical operator (odd crossing = logical error)
Path(m) == [n |-> m, edges |-> [i \in 1..(m + 1) |-> IF i = 1 THEN {0} ELSE IF i = m + 1 THEN {m - 1} ELSE {i - 2, i - 1}],
            d |-> m + 1, cut |-> {1}]
Planar3 == [n |-> 6, d |-> 3, cut |-> {1, 2, 3},
            edges |-> <<{0}, {1}, {2}, {0, 3}, {1, 4}, {2, 5}, {3}, {4}, {5}, {0, 1}, {1, 2}, {3, 4}, {4, 5}>>]
Ring4 == [n |-> 4, d |-> 4, cut |-> {1}, edges |-> <<{0, 1}, {1, 2}, {2, 3}, {3, 0}>>]
Odd1 == [n |-> 3, d |-> 2, cut |-> {1}, edges |-> <<{0}, {0, 1}, {1, 2}, {2}, {2}, {0, 2}>>]
Planar4 == [n |-> 12, d |-> 4, cut |-> 1..4,
            edges |-> <<{0}, {1}, {2}, {3}>> \o [i \in 1..8 |-> {i - 1, i + 3}] \o <<{8}, {9}, {10}, {11}>>
                      \o <<{0, 1}, {1, 2}, {2, 3}, {4, 5}, {5, 6}, {6, 7}, {8, 9}, {9, 10}, {10, 11}>>]
All == <<Path(2), Path(4), Odd1, Ring4, Planar3, Path(6), Planar4>>

E == All[k].edges
Syn == BoundaryOf(E, err)
Inc == [i \in DOMAIN E |-> 1]
AtMost(S, m) == UNION {kSubset(j, S) : j \in 0..m}
Init == /\ k \in Graphs
        /\ LET D == DOMAIN All[k].edges IN
           IF Len(All[k].edges) <= 7
           THEN err \in SUBSET D /\ era \in SUBSET D
           ELSE /\ era \in AtMost(D, All[k].d - 1)
                /\ \E in \in SUBSET era : \E out \in AtMost(D \ era, (All[k].d - Cardinality(era)) \div 2) :
                       err = in \cup out
        /\ g = Grow0(E, era, Full)
Next == /\ Active(E, g, Syn, Full) # {}
        /\ IF Policy = "any" THEN g' \in GrowSteps(E, g, Inc, Syn, Full) ELSE g' = GrowSmallest(E, g, Inc, Syn, Full)
        /\ UNCHANGED <<k, err, era>>
Spec == Init /\ [][Next]_<<k, err, era, g>> /\ WF_<<k, err, era, g>>(Next)

Region == Complete(E, g, Full)
Stopped == Active(E, g, Syn, Full) = {}
ErasureIn == era \subseteq Region
Stuck == ~Stopped => \A h \in GrowSteps(E, g, Inc, Syn, Full) : h # g
ExplainsAtEnd == Stopped => Decodable(E, Region, Syn)
NoNeedlessGrowth == Decodable(E, era, Syn) => Stopped
\* Does every correction inside F have the same class as err?
Wins(F) == \A C \in SUBSET F : Explains(E, C, Syn) => Cardinality(SymDiff(C, err) \cap All[k].cut) % 2 = 0
T == Cardinality(err \ era)
Corrects == (Policy = "smallest" /\ Stopped /\ 2 * T + Cardinality(era) < All[k].d) => Wins(Region)
\* Every correction of minimum weight is right.
MinCorrects == (g = Grow0(E, era, Full) /\ 2 * T + Cardinality(era) < All[k].d) =>
    LET one == [i \in DOMAIN E |-> 1]
        m == MinCost(E, one, era, Syn)
    IN  \A C \in SUBSET DOMAIN E : (Explains(E, C, Syn) /\ Cost(one, era, C) = m) =>
            Cardinality(SymDiff(C, err) \cap All[k].cut) % 2 = 0
Minimum == g = Grow0(E, era, Full) =>
    LET w == [i \in DOMAIN E |-> (i % 3) + 1]
        sols == {C \in SUBSET DOMAIN E : Explains(E, C, Syn)}
        m == MinCost(E, w, era, Syn)
    IN  (\A C \in sols : m <= Cost(w, era, C)) /\ (\E C \in sols : m = Cost(w, era, C))
Ends == <>(Stopped)
=============================================================================
