-------------------------------- MODULE Qasm --------------------------------
(***************************************************************************)
(* OpenQASM export.  Both a circuit and an OpenQASM 2 program are unrolled  *)
(* into atomic operations [op, q (operands), c (classical bit or -1)].  Two *)
(* programs denote the same computation if they have the same operations up *)
(* to exchanging adjacent operations on disjoint qubits, i.e. if for every  *)
(* qubit the sequences of operations on it are equal (Mazurkiewicz traces). *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Supported == {"X", "Y", "Z", "H", "CX", "CZ", "M", "R"}
QName == [X |-> "x", Y |-> "y", Z |-> "z", H |-> "h", CX |-> "cx", CZ |-> "cz",
          M |-> "measure", R |-> "reset"]

Atoms(ins, c0) ==
    IF ins.g \in {"CX", "CZ"}
    THEN [k \in 1..(Len(ins.q) \div 2) |->
            [op |-> QName[ins.g], q |-> <<ins.q[2*k-1], ins.q[2*k]>>, c |-> -1]]
    ELSE [k \in 1..Len(ins.q) |->
            [op |-> QName[ins.g], q |-> <<ins.q[k]>>,
             c |-> IF ins.g = "M" THEN c0 + k - 1 ELSE -1]]

RECURSIVE Unroll(_, _)
Unroll(prog, c0) ==
    IF prog = <<>> THEN <<>>
    ELSE LET h == Head(prog) IN
         IF h.g \notin Supported THEN Unroll(Tail(prog), c0)
         ELSE Atoms(h, c0) \o Unroll(Tail(prog), IF h.g = "M" THEN c0 + Len(h.q) ELSE c0)

AllSupported(prog) == \A k \in DOMAIN prog : prog[k].g \in Supported
Norm(a) == IF a.op = "cz" /\ a.q[1] > a.q[2] THEN [a EXCEPT !.q = <<@[2], @[1]>>] ELSE a
On(atoms, q) == SelectSeq([k \in DOMAIN atoms |-> Norm(atoms[k])],
                          LAMBDA a : \E j \in DOMAIN a.q : a.q[j] = q)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
QubitsOf(atoms) == UNION {{atoms[k].q[j] : j \in DOMAIN atoms[k].q} : k \in DOMAIN atoms}
SameTrace(a, b) == /\ Len(a) = Len(b)
                   /\ \A q \in QubitsOf(a) \cup QubitsOf(b) : On(a, q) = On(b, q)
Bits(prog) == Cardinality({k \in DOMAIN Unroll(prog, 0) : Unroll(prog, 0)[k].op = "measure"})
Width(prog) == MaxOf({0} \cup UNION {{prog[k].q[j] : j \in DOMAIN prog[k].q} : k \in DOMAIN prog}) + 1
=============================================================================
