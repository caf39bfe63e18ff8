----------------------------- MODULE MCCircuitDoc -----------------------------
(* All documents of up to three instructions over a small argument alphabet. *)
EXTENDS CircuitDoc
A(t, v, f, n, u) == [t |-> t, v |-> v, f |-> f, n |-> n, u |-> u]
Toks == {A("q", "0", "0.0", 0, TRUE), A("q", "2", "2.0", 2, FALSE), A("p", "0.5", "0.5", 0, TRUE),
         A("g", "X", "X", 0, FALSE), A("bad", "a", "a", 0, FALSE)}
Args == UNION {[1..k -> Toks] : k \in 0..3}
VARIABLES doc, last
vars == <<doc, last>>
Init == doc = <<>> /\ last = <<>>
Next == /\ Len(doc) < 2
        /\ \E name \in {"X", "M", "ERROR", "ERROR_CONTINUE", "E_ERASE", "S"}, args \in Args :
             LET ins == [name |-> name, args |-> args] IN
             /\ doc' = IF Valid(name, args) THEN Append(doc, ins) ELSE doc
             /\ last' = <<ins>>
Spec == Init /\ [][Next]_vars
\* Nothing outside the gate set, no argument that is neither number nor gate, is ever stored.
Refused == \A k \in DOMAIN doc : doc[k].name \in Gates /\ \A j \in DOMAIN doc[k].args : doc[k].args[j].t # "bad"
Counted == /\ Len(Lines(doc)) = Len(doc)
           /\ NumMeasured(doc) <= 3 * Len(doc)
WidthMonotone == NumQubits(doc) \in {1, 3} /\ (NumQubits(doc) = 3 <=> \E k \in DOMAIN doc : 2 \in QubitsOf(doc[k]))
=============================================================================
