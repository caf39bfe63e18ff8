----------------------------- MODULE CircuitDoc -----------------------------
(***************************************************************************)
(* The circuit description as a document.  A circuit is a sequence of       *)
(* instructions; an instruction is a name and a sequence of arguments, an   *)
(* argument is [t |-> "q" (qubit) | "p" (probability) | "g" (gate name) |   *)
(* "bad" (neither), v |-> canonical text, f |-> canonical text when read as a *)
(* probability, n |-> the qubit number, u |-> it lies within [0, 1]].       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Plain == {"X", "Y", "Z", "H", "CX", "CZ", "M", "R", "DEPOLARIZE"}
Noise == {"E_ERASE", "E_PAULI", "E_PAULI2", "ERROR", "ERROR_ELSE", "ERROR_CONTINUE"}
Gates == Plain \cup Noise

AllQ(args, from) == \A k \in from..Len(args) : args[k].t = "q"
\* a number may be written where a probability is expected
IsP(a) == a.t = "p" \/ a.t = "q"
InUnit(a) == a.u
NumP(name) == CASE name = "E_ERASE" -> 1 [] name = "E_PAULI" -> 3 [] name = "E_PAULI2" -> 15
NumQ(name) == IF name = "E_PAULI2" THEN 2 ELSE 1

Valid(name, args) ==
    CASE name \in Plain -> AllQ(args, 1)
      [] name \in {"ERROR", "ERROR_ELSE"} ->
            /\ Len(args) >= 2 /\ IsP(args[1]) /\ InUnit(args[1])
            /\ args[2].t = "g" /\ args[2].v \in Gates /\ AllQ(args, 3)
      [] name = "ERROR_CONTINUE" ->
            Len(args) >= 1 /\ args[1].t = "g" /\ args[1].v \in Gates /\ AllQ(args, 2)
      [] name \in {"E_ERASE", "E_PAULI", "E_PAULI2"} ->
            /\ Len(args) = NumP(name) + NumQ(name)
            /\ \A k \in 1..NumP(name) : IsP(args[k])
            /\ AllQ(args, NumP(name) + 1)
      [] OTHER -> FALSE

PPos(name) == CASE name \in {"ERROR", "ERROR_ELSE", "E_ERASE"} -> {1}
                [] name = "E_PAULI" -> 1..3 [] name = "E_PAULI2" -> 1..15 [] OTHER -> {}
ArgText(name, args, k) == IF k \in PPos(name) THEN args[k].f ELSE args[k].v
\* What is stored: values, probabilities and qubits told apart by position.
Stored(name, args) == <<name, [k \in DOMAIN args |-> ArgText(name, args, k)]>>
QubitsOf(ins) == {ins.args[k].n : k \in {k \in DOMAIN ins.args \ PPos(ins.name) : ins.args[k].t = "q"}}

RECURSIVE Join(_, _)
Join(s, k) == IF k > Len(s) THEN "" ELSE " " \o s[k] \o Join(s, k + 1)
\* Line k of the printed circuit.
Lines(c) == [k \in DOMAIN c |-> LET x == Stored(c[k].name, c[k].args) IN x[1] \o Join(x[2], 1)]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
NumQubits(c) == MaxOf({0} \cup UNION {QubitsOf(c[k]) : k \in DOMAIN c}) + 1
NumMeasured(c) == FoldLeft(LAMBDA acc, g : IF g.name = "M" THEN acc + Len(g.args) ELSE acc, 0, c)
=============================================================================
