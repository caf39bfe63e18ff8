----------------------------- MODULE PauliGroup -----------------------------
(***************************************************************************)
(* Hermitian Pauli operators over an arbitrary set of qubits (naturals).    *)
(*                                                                         *)
(*   [x |-> set of qubits with an X part,                                   *)
(*    z |-> set of qubits with a Z part,                                    *)
(*    s |-> set of sign variables]                                          *)
(*                                                                         *)
(* The operator is (-1)^s * prod_q P_q, with P_q = X, Z or the Hermitian Y  *)
(* (q in both x and z).  The sign is an affine form over GF(2): the set of  *)
(* variables it is the XOR of; variable 0 is the constant one.  A concrete  *)
(* operator has s = {} (plus) or s = {0} (minus); symbolic execution of a   *)
(* circuit introduces one variable per random measurement outcome and one   *)
(* per possible error.                                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Xor(a, b) == (a \ b) \cup (b \ a)
Odd(S) == Cardinality(S) % 2 = 1

PauliOp(xs, zs, ss) == [x |-> xs, z |-> zs, s |-> ss]
Identity == PauliOp({}, {}, {})
PX(q) == PauliOp({q}, {}, {})
PZ(q) == PauliOp({}, {q}, {})
PY(q) == PauliOp({q}, {q}, {})
Support(p) == p.x \cup p.z
SameBody(p, q) == p.x = q.x /\ p.z = q.z

\* 1..3 = X, Y, Z, as in the letters "IXYZ" counted from 0.
PauliOfCode(c, q) == CASE c = 0 -> Identity
                       [] c = 1 -> PX(q)
                       [] c = 2 -> PY(q)
                       [] c = 3 -> PZ(q)

Anti(p, q) == Odd(p.x \cap q.z) # Odd(p.z \cap q.x)

(* Exponent of i picked up by the product of the two bodies, in 0..3.       *)
PhaseExp(p, q) ==
    LET rx == Xor(p.x, q.x)
        rz == Xor(p.z, q.z)
    IN  (Cardinality(p.x \cap p.z) + Cardinality(q.x \cap q.z)
         + 2 * Cardinality(p.z \cap q.x)
         + 3 * Cardinality(rx \cap rz)) % 4

(* Product of two operators; exact (phase +1/-1) when they commute.  For    *)
(* anticommuting operators the product is +-i times the result; the caller  *)
(* must not rely on its sign.                                               *)
Mul(p, q) ==
    LET e == PhaseExp(p, q)
    IN  PauliOp(Xor(p.x, q.x), Xor(p.z, q.z),
                Xor(Xor(p.s, q.s), IF e >= 2 THEN {0} ELSE {}))

(* Full phase of a product, as the exponent of i: signs included.           *)
FullPhase(p, q) ==
    (PhaseExp(p, q) + (IF 0 \in Xor(p.s, q.s) THEN 2 ELSE 0)) % 4

RECURSIVE MulSet(_, _)
\* Product of the operators rows[i], i \in I (pairwise commuting rows).
MulSet(rows, I) ==
    IF I = {} THEN Identity
    ELSE LET i == CHOOSE j \in I : TRUE
         IN  Mul(rows[i], MulSet(rows, I \ {i}))

-----------------------------------------------------------------------------
(* Clifford conjugation.  Each gate is given by the images of X_q and Z_q   *)
(* in the group; ConjBy extends the images to products, so the update       *)
(* formulas below are a theorem about this definition (see MCPauli).        *)
ImgH(q, a)  == IF a.x # {} THEN PZ(q) ELSE PX(q)

HGate(p, q) ==
    LET inx == q \in p.x
        inz == q \in p.z
    IN  IF inx = inz
        THEN IF inx THEN [p EXCEPT !.s = Xor(@, {0})] ELSE p
        ELSE [p EXCEPT !.x = Xor(@, {q}), !.z = Xor(@, {q})]

SGate(p, q) ==
    IF q \in p.x
    THEN [p EXCEPT !.z = Xor(@, {q}), !.s = IF q \in p.z THEN Xor(@, {0}) ELSE @]
    ELSE p

CXGate(p, c, t) ==
    LET xc == c \in p.x  zc == c \in p.z
        xt == t \in p.x  zt == t \in p.z
        flip == xc /\ zt /\ (xt = zc)
    IN  [x |-> IF xc THEN Xor(p.x, {t}) ELSE p.x,
         z |-> IF zt THEN Xor(p.z, {c}) ELSE p.z,
         s |-> IF flip THEN Xor(p.s, {0}) ELSE p.s]

CZGate(p, c, t) ==
    LET xc == c \in p.x  zc == c \in p.z
        xt == t \in p.x  zt == t \in p.z
        flip == xc /\ xt /\ (zc # zt)
        z1 == IF xc THEN Xor(p.z, {t}) ELSE p.z
    IN  [x |-> p.x,
         z |-> IF xt THEN Xor(z1, {c}) ELSE z1,
         s |-> IF flip THEN Xor(p.s, {0}) ELSE p.s]

(* Conjugation by the Pauli operator g raised to the power v, where v is an *)
(* affine form: the sign of every anticommuting operator changes by v.      *)
PauliGate(p, g, v) == IF Anti(p, g) THEN [p EXCEPT !.s = Xor(@, v)] ELSE p

-----------------------------------------------------------------------------
(* Stabilizer states as Aaronson-Gottesman tableaux:                        *)
(* [d |-> <<destabilizers>>, s |-> <<stabilizers>>].                        *)
ZeroTab(n) == [d |-> [i \in 1..n |-> PX(i-1)], s |-> [i \in 1..n |-> PZ(i-1)]]

NQ(tab) == Len(tab.s)

MapTab(tab, Op(_)) == [d |-> [i \in DOMAIN tab.d |-> Op(tab.d[i])],
                       s |-> [i \in DOMAIN tab.s |-> Op(tab.s[i])]]

ValidTab(tab) ==
    /\ DOMAIN tab.d = DOMAIN tab.s
    /\ \A i, j \in DOMAIN tab.s :
         /\ ~Anti(tab.s[i], tab.s[j])
         /\ ~Anti(tab.d[i], tab.d[j])
         /\ Anti(tab.s[i], tab.d[j]) = (i = j)

(* Is +p (sign included) an element of the stabilizer group of tab?  Any    *)
(* operator commuting with all stabilizers is, up to sign, the product of   *)
(* those whose destabilizer partner it anticommutes with.                   *)
InCentralizer(tab, p) == \A i \in DOMAIN tab.s : ~Anti(tab.s[i], p)
GroupElt(tab, p) == MulSet(tab.s, {i \in DOMAIN tab.d : Anti(tab.d[i], p)})
InGroup(tab, p) == InCentralizer(tab, p) /\ GroupElt(tab, p) = p

(* Two valid tableaux describe the same state iff every stabilizer of one   *)
(* is in the group of the other (both groups have 2^n elements).            *)
SameState(t1, t2) ==
    /\ DOMAIN t1.s = DOMAIN t2.s
    /\ \A i \in DOMAIN t2.s : InGroup(t1, t2.s[i])

-----------------------------------------------------------------------------
(* Measurement of the Hermitian operator p (p.s concrete or symbolic).      *)
IsRandom(tab, p) == ~InCentralizer(tab, p)

\* Deterministic outcome, as an affine form; only when ~IsRandom(tab, p).
DetOutcome(tab, p) == Xor(GroupElt(tab, p).s, p.s)

\* Collapse onto the eigenspace with outcome v (an affine form).
Collapse(tab, p, v) ==
    LET k == CHOOSE i \in DOMAIN tab.s : Anti(tab.s[i], p)
        g == tab.s[k]
        upd(r) == IF Anti(r, p) THEN Mul(r, g) ELSE r
    IN  [d |-> [i \in DOMAIN tab.d |-> IF i = k THEN g ELSE upd(tab.d[i])],
         s |-> [i \in DOMAIN tab.s |->
                  IF i = k THEN [p EXCEPT !.s = Xor(@, v)] ELSE upd(tab.s[i])]]

(* The canonical form of a state: the set of all group elements is too big; *)
(* compare states with SameState instead.                                   *)
=============================================================================
