------------------------------ MODULE Decoding ------------------------------
(***************************************************************************)
(* Decoding problems on graphs: vertices 0..n-1, edges a sequence of sets   *)
(* of one (dangling) or two vertices, w a sequence of positive integer      *)
(* weights, syn a set of vertices, era a set of (indices of) erased edges.  *)
(* A correction is a set of edge indices whose boundary is the syndrome.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SymDiff(a, b) == (a \ b) \cup (b \ a)
RECURSIVE BoundaryOf(_, _)
BoundaryOf(edges, F) ==
    IF F = {} THEN {}
    ELSE LET i == CHOOSE j \in F : TRUE IN SymDiff(edges[i], BoundaryOf(edges, F \ {i}))
Explains(edges, F, syn) == F \subseteq DOMAIN edges /\ BoundaryOf(edges, F) = syn

RECURSIVE Closure(_, _, _)
\* Vertices connected to front by the edges in F.
Closure(edges, F, seen) ==
    LET nxt == seen \cup UNION {edges[i] : i \in {j \in F : edges[j] \cap seen # {}}}
    IN  IF nxt = seen THEN seen ELSE Closure(edges, F, nxt)
Clusters(edges, F, vs) == {Closure(edges, F, {v}) : v \in vs}
Dangles(edges, F, cl) == \E i \in F : Cardinality(edges[i]) = 1 /\ edges[i] \subseteq cl
\* A cluster is neutral if its edges in F can explain its part of the syndrome.
Neutral(edges, F, cl, syn) == Cardinality(cl \cap syn) % 2 = 0 \/ Dangles(edges, F, cl)
Decodable(edges, F, syn) == \A v \in syn : Neutral(edges, F, Closure(edges, F, {v}), syn)

-----------------------------------------------------------------------------
(* Minimum total weight of a correction.  best: the cheapest way to produce *)
(* each boundary with the first i edges; erased edges cost nothing.         *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Cost(w, era, F) == SumOver(w, F \ era)
LessEq(a, b) == b < 0 \/ (a >= 0 /\ a <= b)   \* -1: impossible
RECURSIVE BestFrom(_, _, _, _, _)
BestFrom(edges, w, era, i, best) ==
    IF i > Len(edges) THEN best
    ELSE LET c == IF i \in era THEN 0 ELSE w[i]
             old(B) == IF B \in DOMAIN best THEN best[B] ELSE -1
             via(B) == LET p == old(SymDiff(B, edges[i])) IN IF p < 0 THEN -1 ELSE p + c
             dom == DOMAIN best \cup {SymDiff(B, edges[i]) : B \in DOMAIN best}
         IN  BestFrom(edges, w, era, i + 1,
                      [B \in dom |-> IF LessEq(old(B), via(B)) THEN old(B) ELSE via(B)])
MinCost(edges, w, era, syn) ==
    BestFrom(edges, w, era, 1, [B \in {{}} |-> 0])[syn]

-----------------------------------------------------------------------------
(* Union-find: clusters of complete edges; in a step any nonempty set of    *)
(* clusters that are not neutral grows, each of its vertices extending all  *)
(* incomplete edges by the edge's increment inc[i]; an edge is complete at  *)
(* size Full.                                                               *)
Complete(edges, g, Full) == {i \in DOMAIN edges : g[i] >= Full}
Grow0(edges, era, Full) == [i \in DOMAIN edges |-> IF i \in era THEN Full ELSE 0]
Active(edges, g, syn, Full) ==
    LET F == Complete(edges, g, Full)
    IN  {cl \in Clusters(edges, F, syn) : ~Neutral(edges, F, cl, syn)}
GrowBy(edges, g, inc, grow, Full) ==
    [i \in DOMAIN edges |->
        LET s == g[i] + inc[i] * Cardinality(edges[i] \cap grow) IN IF s > Full THEN Full ELSE s]
GrowSteps(edges, g, inc, syn, Full) ==
    {GrowBy(edges, g, inc, UNION cs, Full) : cs \in (SUBSET Active(edges, g, syn, Full)) \ {{}}}
(* The published rule: the active clusters with the fewest boundary          *)
(* vertices (vertices with incomplete edges) grow, all at once.              *)
BoundarySize(edges, F, cl) == Cardinality({v \in cl : \E i \in DOMAIN edges : v \in edges[i] /\ i \notin F})
Smallest(edges, g, syn, Full) ==
    LET F == Complete(edges, g, Full)
        act == Active(edges, g, syn, Full)
    IN  {cl \in act : \A o \in act : BoundarySize(edges, F, cl) <= BoundarySize(edges, F, o)}
GrowSmallest(edges, g, inc, syn, Full) ==
    GrowBy(edges, g, inc, UNION Smallest(edges, g, syn, Full), Full)
RECURSIVE GrownRegion(_, _, _, _, _)
GrownRegion(edges, g, inc, syn, Full) ==
    IF Active(edges, g, syn, Full) = {} THEN Complete(edges, g, Full)
    ELSE GrownRegion(edges, GrowSmallest(edges, g, inc, syn, Full), inc, syn, Full)
RECURSIVE GrowFinals(_, _, _, _, _, _)
\* Can growth end with exactly the region goal?  Edges outside it must stay incomplete.
GrowFinals(edges, inc, syn, Full, goal, gs) ==
    LET ok == {g \in gs : Complete(edges, g, Full) \subseteq goal}
    IN  IF ok = {} THEN FALSE
        ELSE IF \E g \in ok : Active(edges, g, syn, Full) = {} /\ Complete(edges, g, Full) = goal THEN TRUE
        ELSE GrowFinals(edges, inc, syn, Full, goal, UNION {GrowSteps(edges, g, inc, syn, Full) : g \in ok})
=============================================================================
