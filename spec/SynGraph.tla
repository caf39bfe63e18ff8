------------------------------ MODULE SynGraph ------------------------------
(***************************************************************************)
(* The syndrome graph of a stabilizer code measured for R rounds.           *)
(*                                                                         *)
(* Vertices <<t, s>>: the change of stabilizer s between blocks t and t+1   *)
(* of results (s counts from 0).  Edges <<kind, t, i>>: an X or Z error on  *)
(* data qubit i just before round t, or ("M") a wrong result of stabilizer  *)
(* i in round t, which shows up at <<t-1, i>> and <<t, i>>.                 *)
(* A selection of edges explains the syndrome that is its boundary.         *)
(***************************************************************************)
EXTENDS StabCode

XOp(i) == PX(i)
ZOp(i) == PZ(i)
OpOf(e) == IF e[1] = "X" THEN PX(e[3]) ELSE IF e[1] = "Z" THEN PZ(e[3]) ELSE Identity

Vertices(code, R) == (0..(R - 1)) \X (0..(Len(code.stabs) - 1))
QubitEdges(code, R) == {"X", "Z"} \X (0..(R - 1)) \X (0..(code.n - 1))
StabEdges(code, R) == {"M"} \X (1..(R - 1)) \X (0..(Len(code.stabs) - 1))
Edges(code, R) == QubitEdges(code, R) \cup StabEdges(code, R)

EndsOf(code, e) == IF e[1] = "M" THEN {<<e[2] - 1, e[3]>>, <<e[2], e[3]>>}
                   ELSE {<<e[2], s - 1>> : s \in Syndrome(code, OpOf(e))}
Buildable(code) == \A e \in QubitEdges(code, 1) : Cardinality(EndsOf(code, e)) <= 2

-----------------------------------------------------------------------------
(* Weights are records [s |-> "num"/"nan"/"inf"/"-inf", v |-> integer];     *)
(* w is a function from edges to weights.                                   *)
Lighter(a, b) == CASE a.s = "-inf" -> b.s # "-inf"
                   [] b.s = "-inf" -> FALSE
                   [] a.s = "inf" -> FALSE
                   [] b.s = "inf" -> TRUE
                   [] OTHER -> a.v < b.v
Parallel(ends, e) == IF ends[e] = {} THEN {e} ELSE {f \in DOMAIN ends : ends[f] = ends[e]}

\* Mixing weighted and unweighted parallel edges is refused.
Mixed(ends, w) == \E e \in DOMAIN ends : \E f \in Parallel(ends, e) : w[e].s = "nan" /\ w[f].s # "nan"
Lightest(par, w) == {e \in par : \A f \in par : ~Lighter(w[f], w[e])}

(* Edges of infinite weight are out; of parallel edges exactly one, a       *)
(* lightest one, is in.                                                     *)
EnabledOK(ends, w, on) ==
    \A e \in DOMAIN ends : ends[e] # {} =>
        LET par == Parallel(ends, e)  in == par \cap on  fin == {f \in par : w[f].s # "inf"} IN
        /\ Cardinality(in) = (IF fin = {} THEN 0 ELSE 1)
        /\ in \subseteq Lightest(par, w)

RECURSIVE ReachFrom(_, _, _)
\* Vertices connected to front by the sets of vertices in links.
ReachFrom(links, seen, front) ==
    IF front = {} THEN seen
    ELSE LET nxt == UNION {l \in links : l \cap front # {}} \ seen
         IN  ReachFrom(links, seen \cup nxt, nxt)
Connected(links, vs) == vs = {} \/ LET v == CHOOSE u \in vs : TRUE IN ReachFrom(links, {v}, {v}) = vs

-----------------------------------------------------------------------------
RECURSIVE XorAll(_, _)
XorAll(f, S) == IF S = {} THEN {}
                ELSE LET e == CHOOSE x \in S : TRUE IN Xor(f[e], XorAll(f, S \ {e}))
Boundary(ends, F) == XorAll(ends, F)

\* The Pauli operator a selection stands for.
FrameOf(F) == PauliOp(XorAll([e \in F |-> OpOf(e).x], F), XorAll([e \in F |-> OpOf(e).z], F), {})
(* What the rounds of a selection of errors do to the stabilizers in total. *)
Summed(code, V, B) == {s \in 1..Len(code.stabs) : Odd({v \in B : v[2] = s - 1})}
=============================================================================
