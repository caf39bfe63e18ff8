------------------------------ MODULE MCPauli -------------------------------
(***************************************************************************)
(* The algebra of PauliGroup is checked against 2x2 matrices over the       *)
(* Gaussian integers (one qubit) and as group/homomorphism laws (MaxQ       *)
(* qubits).  The "state machine" walks all pairs of operators.              *)
(***************************************************************************)
EXTENDS PauliGroup, TLC
CONSTANT MaxQ
Qs == 0..(MaxQ-1)
Paulis == {PauliOp(a, b, s) : a \in SUBSET Qs, b \in SUBSET Qs, s \in {{}, {0}}}

(* Gaussian integers <<re, im>> and 2x2 matrices <<a,b,c,d>> (row major).   *)
GAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
GMul(u, v) == <<u[1]*v[1] - u[2]*v[2], u[1]*v[2] + u[2]*v[1]>>
MM(m, n) == << GAdd(GMul(m[1], n[1]), GMul(m[2], n[3])),
               GAdd(GMul(m[1], n[2]), GMul(m[2], n[4])),
               GAdd(GMul(m[3], n[1]), GMul(m[4], n[3])),
               GAdd(GMul(m[3], n[2]), GMul(m[4], n[4])) >>
MScale(c, m) == <<GMul(c, m[1]), GMul(c, m[2]), GMul(c, m[3]), GMul(c, m[4])>>
o == <<0,0>>  l == <<1,0>>  i == <<0,1>>  nl == <<-1,0>>  ni == <<0,-1>>
MatOf(x, z) == CASE ~x /\ ~z -> <<l,o,o,l>>
                 [] x /\ ~z -> <<o,l,l,o>>
                 [] x /\ z -> <<o,ni,i,o>>
                 [] ~x /\ z -> <<l,o,o,nl>>
Mat1(p) == MScale(IF 0 \in p.s THEN nl ELSE l, MatOf(0 \in p.x, 0 \in p.z))
IPow(e) == CASE e = 0 -> l [] e = 1 -> i [] e = 2 -> nl [] e = 3 -> ni
One1 == {p \in Paulis : Support(p) \subseteq {0}}
Hadam == <<l,l,l,nl>>                      \* sqrt(2) H
Phase == <<l,o,o,i>>
PhaseD == <<l,o,o,ni>>

MatrixLaw == \A p, q \in One1 :
    LET r == [Mul(p, q) EXCEPT !.s = {}]
    IN  MM(Mat1(p), Mat1(q)) = MScale(IPow(FullPhase(p, q)), Mat1(r))
HLaw == \A p \in One1 : MM(MM(Hadam, Mat1(p)), Hadam) = MScale(<<2,0>>, Mat1(HGate(p, 0)))
SLaw == \A p \in One1 : MM(MM(Phase, Mat1(p)), PhaseD) = Mat1(SGate(p, 0))
GateLaw == \A p \in One1 : \A c \in 1..3 :
    LET g == PauliOfCode(c, 0)
    IN  MM(MM(Mat1(g), Mat1(p)), Mat1(g)) = Mat1(PauliGate(p, g, {0}))

VARIABLES p, q
vars == <<p, q>>
Init == p \in Paulis /\ q \in Paulis
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Hom(G(_)) == /\ (~Anti(p, q)) => G(Mul(p, q)) = Mul(G(p), G(q))
             /\ Anti(G(p), G(q)) = Anti(p, q)
             /\ FullPhase(G(p), G(q)) =
                  (FullPhase(p, q)
                   + (IF (0 \in G([Mul(p,q) EXCEPT !.s = {}]).s) THEN 2 ELSE 0)) % 4
Gates == /\ \A a \in Qs : Hom(LAMBDA r : HGate(r, a)) /\ Hom(LAMBDA r : SGate(r, a))
         /\ \A a, b \in Qs : a # b => /\ Hom(LAMBDA r : CXGate(r, a, b))
                                      /\ Hom(LAMBDA r : CZGate(r, a, b))
Images == \A a, b \in Qs : a # b =>
    /\ CXGate(PX(a), a, b) = Mul(PX(a), PX(b)) /\ CXGate(PX(b), a, b) = PX(b)
    /\ CXGate(PZ(a), a, b) = PZ(a) /\ CXGate(PZ(b), a, b) = Mul(PZ(a), PZ(b))
    /\ CZGate(PX(a), a, b) = Mul(PX(a), PZ(b)) /\ CZGate(PX(b), a, b) = Mul(PZ(a), PX(b))
    /\ CZGate(PZ(a), a, b) = PZ(a) /\ CZGate(PZ(b), a, b) = PZ(b)
Laws == MatrixLaw /\ HLaw /\ SLaw /\ GateLaw /\ Images
Comm == /\ FullPhase(p, q) = (FullPhase(q, p) + (IF Anti(p, q) THEN 2 ELSE 0)) % 4
        /\ Mul(p, p) = Identity
        /\ (PhaseExp(p, q) \in {0, 2}) = ~Anti(p, q)
=============================================================================
