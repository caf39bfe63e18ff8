---------------------------- MODULE MCStabGroup ----------------------------
(* All stabilizer states of N qubits: the tableau algorithm of PauliGroup    *)
(* refines the group semantics, and qubits come and go without side effects. *)
EXTENDS StabGroup
CONSTANT N
VARIABLES G, tab
vars == <<G, tab>>
Q == 0..N-1
Ops == {PX(q) : q \in Q} \cup {PY(q) : q \in Q} \cup {PZ(q) : q \in Q}
       \cup {Mul(PX(a), PX(b)) : <<a, b>> \in {p \in Q \X Q : p[1] < p[2]}}
       \cup {Mul(PZ(a), PY(b)) : <<a, b>> \in {p \in Q \X Q : p[1] # p[2]}} \cup {Identity}
Init == G = Zeros(N) /\ tab = ZeroTab(N)
Norm(t) == t
Next ==
    \/ \E q \in Q : \/ G' = GateG(G, "h", <<q>>) /\ tab' = MapTab(tab, LAMBDA p : HGate(p, q))
                    \/ G' = GateG(G, "s", <<q>>) /\ tab' = MapTab(tab, LAMBDA p : SGate(p, q))
                    \/ G' = GateG(G, "x", <<q>>)
                       /\ tab' = MapTab(tab, LAMBDA p : PauliGate(p, PX(q), {0}))
    \/ \E a, b \in Q : /\ a # b
                       /\ \/ G' = GateG(G, "cx", <<a, b>>)
                             /\ tab' = MapTab(tab, LAMBDA p : CXGate(p, a, b))
                          \/ G' = GateG(G, "cz", <<a, b>>)
                             /\ tab' = MapTab(tab, LAMBDA p : CZGate(p, a, b))
Spec == Init /\ [][Next]_vars
View == G

Refines == Span(tab.s) = G /\ ValidTab(tab) /\ IsState(G, N)
Bits(v) == IF v = 1 THEN {0} ELSE {}
MeasureRefines == \A p \in Ops :
    /\ IsRandom(tab, p) = Rand(G, p)
    /\ ~Rand(G, p) => \A v \in Outcomes(G, p) : DetOutcome(tab, p) = Bits(v) /\ After(G, p, v) = G
    /\ Cardinality(Outcomes(G, p)) = IF Rand(G, p) THEN 2 ELSE 1
    /\ \A v \in Outcomes(G, p) :
          LET H == After(G, p, v)
              t == Collapse(tab, p, Bits(v))
          IN  /\ IsState(H, N) /\ Outcomes(H, p) = {v}
              /\ Rand(G, p) => Span(t.s) = H /\ ValidTab(t)
InsertRemove == \A a \in 0..N, b \in 0..N : a <= b =>
    LET H == Insert(G, <<a, b>>) IN
    /\ IsState(H, N + 2)
    /\ DropQubits(H, {a, b + 1}) = G
    /\ DropQubits(DropQubits(H, {b + 1}), {a}) = G
    /\ Insert(Insert(G, <<b>>), <<a>>) = H
TensorRemove ==
    LET T == Tensor(G, N, GateG(Zeros(1), "h", <<0>>)) IN
    /\ IsState(T, N + 1) /\ DropQubits(T, {N}) = G
    /\ GateG(T, "h", <<N>>) = Insert(G, <<N>>)
MeasureRemove == \A q \in Q, v \in {0, 1} : v \in Outcomes(G, PZ(q)) =>
    LET H == After(G, PZ(q), v)
        R == DropQubits(H, {q})
    IN  /\ IsState(R, N - 1)
        /\ Insert(R, <<q>>) = IF v = 0 THEN H ELSE GateG(H, "x", <<q>>)
=============================================================================
