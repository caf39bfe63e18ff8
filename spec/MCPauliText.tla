---------------------------- MODULE MCPauliText ----------------------------
(* Reading and writing are inverse, the grammar is exactly that of all texts *)
(* up to MaxLen characters, products are associative.                        *)
EXTENDS PauliText
CONSTANTS N, MaxLen
VARIABLES w, p, q
vars == <<w, p, q>>
Alphabet == {"+", "-", "I", "X", "Z", "1", "0", " ", "?"}
Ops == {PauliOp(a, b, s) : a \in SUBSET (0..N-1), b \in SUBSET (0..N-1), s \in {{}, {0}}}
Init == w = <<>> /\ p \in Ops /\ q \in Ops
Next == /\ Len(w) < MaxLen /\ p = Identity /\ q = Identity
        /\ \E ch \in Alphabet : w' = Append(w, ch) /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars

RoundTrip == w = <<>> =>
    /\ Parse(Long(p, N), -1) = Accepted(p, N)
    /\ Parse(Long(p, N), N + 2) = Accepted(p, N + 2)
    /\ Parse(Short(p, N), N) = Accepted(p, N)
    /\ Support(p) # {} => Parse(Short(p, N), -1) = Accepted(p, Max0(Support(p)) + 1)
    /\ (Support(p) # {} /\ N > 1) => ~Parse(Long(p, N), N - 1).ok
    /\ Len(Long(p, N)) = N + 1
\* Accepted texts can be shown again and mean the same; spaces mean nothing.
Grammar ==
    LET r == Parse(w, -1) IN
    /\ r.ok => /\ \A k \in DOMAIN w : w[k] # "?"
               /\ Support(r.op) \subseteq 0..(r.n - 1)
               /\ Parse(Long(r.op, r.n), -1) = r
               /\ \A k \in 1..Len(w) : w[k] \in Signs => \A j \in 1..(k-1) : w[j] = " "
    /\ \A k \in 0..Len(w) :
          Parse(SubSeq(w, 1, k) \o <<"_">> \o SubSeq(w, k + 1, Len(w)), -1) = r
    /\ (\E k \in DOMAIN w : w[k] = "?") => ~r.ok
Products == w = <<>> =>
    /\ ProdPhase(<<p, q>>) = FullPhase(p, q) /\ ProdBody(<<p, q>>) = [Mul(p, q) EXCEPT !.s = {}]
    /\ Product(p, p) = Identity
    /\ (FullPhase(p, q) = FullPhase(q, p)) = ~Anti(p, q)
    /\ Beside(<<p, q>>, <<N, N>>) = Mul(p, Shift(q, N))
    /\ \A r \in {PX(0), PY(0), Negate(PZ(0))} :
          LET pq == Product(p, q)
              qr == Product(q, r)
          IN  /\ SameBody(Product(pq, r), Product(p, qr))
              /\ ProdPhase(<<p, q, r>>) =
                   (FullPhase([Mul(p, q) EXCEPT !.s = {}], r) + FullPhase(p, q)) % 4
=============================================================================
