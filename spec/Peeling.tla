------------------------------ MODULE Peeling -------------------------------
(***************************************************************************)
(* The erasure decoder: choose a spanning forest of the erased edges in     *)
(* which every tree of a cluster with dangling edges is rooted in exactly   *)
(* one of them, then peel it leaf by leaf.  A leaf with a syndrome selects  *)
(* its edge and passes the syndrome on to the other end.                    *)
(* Also: subgraphs (enabled vertices and edges) and the operations on them. *)
(***************************************************************************)
EXTENDS Decoding

Ends(edges, F) == UNION {edges[i] : i \in F}
Dangling(edges, i) == Cardinality(edges[i]) = 1
\* Trees over the vertices vs with edges F (their number of regular edges says there is no cycle).
Acyclic(edges, F, vs) ==
    \A cl \in Clusters(edges, F, vs) :
        Cardinality({i \in F : edges[i] \subseteq cl /\ ~Dangling(edges, i)}) = Cardinality(cl) - 1
Roots(edges, F, cl) == Cardinality({i \in F : edges[i] \subseteq cl /\ Dangling(edges, i)})
SpanningForest(edges, sel, F) ==
    LET vs == Ends(edges, sel) IN
    /\ F \subseteq sel
    /\ Acyclic(edges, F, vs)
    /\ \A cl \in Clusters(edges, F, vs) : Roots(edges, F, cl) <= 1
    /\ \A big \in Clusters(edges, sel, vs) :
          IF Dangles(edges, sel, big) THEN \A cl \in Clusters(edges, F, big) : Roots(edges, F, cl) = 1
          ELSE Cardinality(Clusters(edges, F, big)) = 1

At(edges, F, v) == {i \in F : v \in edges[i]}
Leaves(edges, F, vs) == {v \in vs : Cardinality(At(edges, F, v)) <= 1}
(* One peeling step at leaf v: forest, vertices, syndrome and correction.    *)
PeelAt(edges, st, v) ==
    LET here == At(edges, st.F, v) IN
    IF here = {} THEN [st EXCEPT !.vs = @ \ {v}]
    ELSE LET i == CHOOSE j \in here : TRUE IN
         [F |-> st.F \ {i}, vs |-> st.vs \ {v},
          syn |-> IF v \in st.syn THEN SymDiff(st.syn, edges[i]) ELSE st.syn,
          corr |-> IF v \in st.syn THEN st.corr \cup {i} ELSE st.corr]

-----------------------------------------------------------------------------
(* Subgraphs: g.v, g.e enabled vertices and edges; g.nb whether neighbour    *)
(* lists exist ("none", "kept") and g.lf the tracked leaves (with g.lt).     *)
Fresh == [v |-> {}, e |-> {}, set |-> FALSE, nb |-> "none", lt |-> FALSE, lf |-> {}]
Neighbours(edges, g, v) == {<<i, IF Dangling(edges, i) THEN -1 ELSE CHOOSE u \in edges[i] : u # v>> : i \in At(edges, g.e, v)}
Missing(edges, g, v) == {<<i, IF Dangling(edges, i) THEN -1 ELSE CHOOSE u \in edges[i] : u # v>> : i \in At(edges, DOMAIN edges \ g.e, v)}
Degree(edges, g, v) == Cardinality(At(edges, g.e, v))
SetVertex(edges, g, v, on) == [g EXCEPT !.v = IF on THEN @ \cup {v} ELSE @ \ {v}]
SetEdge(edges, g, i, on) ==
    LET h == [g EXCEPT !.e = IF on THEN @ \cup {i} ELSE @ \ {i}]
    IN  IF g.lt /\ g.nb = "kept" /\ i \in g.e /\ ~on
        THEN [h EXCEPT !.lf = @ \cup {v \in edges[i] : Degree(edges, g, v) > 1 /\ Degree(edges, h, v) <= 1}]
        ELSE h
VertexRefused(edges, g, v, on) == ~on /\ g.nb = "kept" /\ Degree(edges, g, v) > 0
EdgeRefused(edges, g, i, on) == ~(edges[i] \subseteq g.v) \/ (on /\ i \notin g.e /\ g.lt /\ g.nb = "kept")
=============================================================================
