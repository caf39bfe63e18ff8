----------------------------- MODULE StabGroup -----------------------------
(***************************************************************************)
(* Stabilizer states of few qubits as what they are: the set of all Pauli    *)
(* operators (with sign) that stabilize the state.  No generators, no        *)
(* tableau, no algorithm.                                                   *)
(***************************************************************************)
EXTENDS PauliGroup, SequencesExt

Neg(p) == [p EXCEPT !.s = Xor(@, {0})]
\* All products of the given commuting operators.
Span(rows) == FoldLeft(LAMBDA G, r : G \cup {Mul(g, r) : g \in G}, {Identity}, rows)
Zeros(n) == Span([i \in 1..n |-> PZ(i - 1)])
IsState(G, n) == Cardinality(G) = 2^n /\ Neg(Identity) \notin G

MapG(G, Op(_)) == {Op(g) : g \in G}
GateG(G, g, q) ==
    CASE g = "h" -> MapG(G, LAMBDA p : HGate(p, q[1]))
      [] g = "s" -> MapG(G, LAMBDA p : SGate(p, q[1]))
      [] g = "x" -> MapG(G, LAMBDA p : PauliGate(p, PX(q[1]), {0}))
      [] g = "y" -> MapG(G, LAMBDA p : PauliGate(p, PY(q[1]), {0}))
      [] g = "z" -> MapG(G, LAMBDA p : PauliGate(p, PZ(q[1]), {0}))
      [] g = "cx" -> MapG(G, LAMBDA p : CXGate(p, q[1], q[2]))
      [] g = "cz" -> MapG(G, LAMBDA p : CZGate(p, q[1], q[2]))

(* Measuring p: outcome 0 leaves p, outcome 1 leaves -p in the group.        *)
Rand(G, p) == p \notin G /\ Neg(p) \notin G
Signed(p, v) == IF v = 1 THEN Neg(p) ELSE p
\* Outcomes that occur (each with probability 1/2 if there are two).
Outcomes(G, p) == {v \in {0, 1} : Neg(Signed(p, v)) \notin G}
After(G, p, v) ==
    LET keep == {g \in G : ~Anti(g, p)}
    IN  keep \cup {Mul(g, Signed(p, v)) : g \in keep}

(* Qubits come and go.  Relabelling keeps signs.                             *)
Relabel(p, f(_)) == [x |-> {f(q) : q \in p.x}, z |-> {f(q) : q \in p.z}, s |-> p.s]
\* Insertion of |0> at the sorted positions pos (of the old qubits).
Moved(pos, q) == q + Cardinality({k \in DOMAIN pos : pos[k] <= q})
Insert(G, pos) ==
    LET old == MapG(G, LAMBDA p : Relabel(p, LAMBDA q : Moved(pos, q)))
    IN  FoldLeft(LAMBDA H, k : H \cup {Mul(h, PZ(pos[k] + k - 1)) : h \in H},
                 old, [k \in DOMAIN pos |-> k])
\* Removal of measured qubits T: what is known about the others.
DropQubits(G, T) ==
    {Relabel(p, LAMBDA q : q - Cardinality({t \in T : t < q})) :
        p \in {p \in G : Support(p) \cap T = {}}}
\* Two systems side by side, n qubits in the first one.
Tensor(G, n, H) ==
    {Mul(g, Relabel(h, LAMBDA q : q + n)) : <<g, h>> \in G \X H}
=============================================================================
