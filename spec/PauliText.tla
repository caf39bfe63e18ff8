----------------------------- MODULE PauliText -----------------------------
(***************************************************************************)
(* Pauli operators in writing: the strings users type and read, as           *)
(* sequences of characters.                                                 *)
(*                                                                         *)
(*   canonical form  [sign] letters            -XIZ    one letter per qubit  *)
(*   short form      [sign] (letter number)+   -X0Z12  one entry per qubit   *)
(*                                                                         *)
(* Spaces and underscores may be anywhere.                                  *)
(***************************************************************************)
EXTENDS PauliGroup, SequencesExt, TLC

Letters == {"I", "X", "Y", "Z"}
Signs == {"+", "-"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E k \in DOMAIN Digits : Digits[k] = ch
DigitVal(ch) == (CHOOSE k \in DOMAIN Digits : Digits[k] = ch) - 1

LetterOp(ch, q) == CASE ch = "I" -> Identity [] ch = "X" -> PX(q)
                     [] ch = "Y" -> PY(q) [] ch = "Z" -> PZ(q)
LetterAt(p, q) == IF q \in p.x THEN IF q \in p.z THEN "Y" ELSE "X"
                  ELSE IF q \in p.z THEN "Z" ELSE "I"
\* Operators on different qubits side by side.
Join(p, r) == PauliOp(p.x \cup r.x, p.z \cup r.z, Xor(p.s, r.s))
Negate(p) == [p EXCEPT !.s = Xor(@, {0})]
Refused == [ok |-> FALSE, op |-> Identity, n |-> 0]
Accepted(op, n) == [ok |-> TRUE, op |-> op, n |-> n]
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m

\* Short form without sign, as <<letter, number>> pairs; <<"?", 0>> marks an error.
RECURSIVE Entries(_)
Entries(w) ==
    IF w = <<>> THEN <<>>
    ELSE LET stop == {k \in 2..Len(w) : ~IsDigit(w[k])}
             e == IF stop = {} THEN Len(w) ELSE (CHOOSE k \in stop : \A j \in stop : k <= j) - 1
             num == FoldLeft(LAMBDA v, ch : 10 * v + DigitVal(ch), 0, SubSeq(w, 2, e))
         IN  IF w[1] \notin Letters \/ e = 1 THEN <<<<"?", 0>>>>
             ELSE <<<<w[1], num>>>> \o Entries(SubSeq(w, e + 1, Len(w)))

\* Short forms that name a qubit twice are left open.
Repeats(w) == LET e == Entries(w)
              IN  \E i, j \in DOMAIN e : i # j /\ e[i][2] = e[j][2]
Clean(text) == SelectSeq(text, LAMBDA ch : ch \notin {" ", "_"})
Body(w) == IF w # <<>> /\ w[1] \in Signs THEN Tail(w) ELSE w

(* What a text means on `qubits` qubits (-1: as many as it names).          *)
Parse(text, qubits) ==
    LET w == Clean(text)
        b == Body(w)
        sign == IF w # b /\ w[1] = "-" THEN {0} ELSE {}
    IN  IF w = <<>> THEN Refused
        ELSE IF \A k \in DOMAIN b : b[k] \in Letters
        THEN IF qubits # -1 /\ qubits < Len(b) THEN Refused
             ELSE Accepted([FoldLeft(LAMBDA p, k : Join(p, LetterOp(b[k], k - 1)), Identity,
                                     [k \in DOMAIN b |-> k]) EXCEPT !.s = sign],
                           IF qubits = -1 THEN Len(b) ELSE qubits)
        ELSE LET e == Entries(b)
                 least == Max0({e[k][2] + 1 : k \in DOMAIN e})
             IN  IF \E k \in DOMAIN e : e[k][1] = "?" THEN Refused
                 ELSE IF qubits # -1 /\ qubits < least THEN Refused
                 ELSE Accepted([FoldLeft(LAMBDA p, x : Join(p, LetterOp(x[1], x[2])), Identity, e)
                                    EXCEPT !.s = sign],
                               IF qubits = -1 THEN least ELSE qubits)

SignOf(p) == IF p.s = {0} THEN "-" ELSE "+"
\* The two ways in which operators on n qubits are shown.
Long(p, n) == <<SignOf(p)>> \o [k \in 1..n |-> LetterAt(p, k - 1)]
RECURSIVE NumText(_)
NumText(v) == (IF v < 10 THEN <<>> ELSE NumText(v \div 10)) \o <<Digits[(v % 10) + 1]>>
Short(p, n) == FoldLeft(LAMBDA t, q : IF q \in Support(p)
                                      THEN t \o <<" ", LetterAt(p, q)>> \o NumText(q) ELSE t,
                        <<SignOf(p)>>, [k \in 1..n |-> k - 1])

-----------------------------------------------------------------------------
(* Arithmetic with bits: the sign bit of a product is set for the factors    *)
(* -1 and -i.                                                               *)
Product(p, q) == LET r == Mul(p, q)
                 IN  PauliOp(r.x, r.z, IF FullPhase(p, q) >= 2 THEN {0} ELSE {})
\* Several operators, associating to the right.
RECURSIVE ProdPhase(_), ProdBody(_)
ProdBody(ops) == IF Len(ops) = 1 THEN [ops[1] EXCEPT !.s = {}]
                 ELSE [Mul(ops[1], ProdBody(Tail(ops))) EXCEPT !.s = {}]
ProdPhase(ops) == IF Len(ops) = 1 THEN IF ops[1].s = {0} THEN 2 ELSE 0
                  ELSE (FullPhase(ops[1], ProdBody(Tail(ops))) + ProdPhase(Tail(ops))) % 4
Shift(p, n) == PauliOp({q + n : q \in p.x}, {q + n : q \in p.z}, p.s)
RECURSIVE Beside(_, _)
\* Tensor product of operators with the given numbers of qubits.
Beside(ops, ns) == IF ops = <<>> THEN Identity
                   ELSE Join(ops[1], Shift(Beside(Tail(ops), Tail(ns)), ns[1]))
=============================================================================
