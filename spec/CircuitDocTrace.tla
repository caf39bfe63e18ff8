-------------------------- MODULE CircuitDocTrace --------------------------
(***************************************************************************)
(* Recorded editing sessions on a circuit: appending instructions, text and *)
(* builder calls, some of them malformed; after every step the recorded     *)
(* gates, printed text, reparsed text and counts must be those of the       *)
(* document.                                                               *)
(***************************************************************************)
EXTENDS CircuitDoc, Json, IOUtils, TLC, Integers

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, doc, bad
vars == <<c, pc, doc, bad>>
CS == Cases[c]
Init == c \in DOMAIN Cases /\ pc = 1 /\ doc = <<>> /\ bad = <<>>

\* The documents a step may lead to (text is taken over line by line).
Good(lines) == IF \A k \in DOMAIN lines : Valid(lines[k].name, lines[k].args) THEN Len(lines)
               ELSE (CHOOSE k \in DOMAIN lines : /\ ~Valid(lines[k].name, lines[k].args)
                        /\ \A j \in 1..(k-1) : Valid(lines[j].name, lines[j].args)) - 1
Targets(ev) ==
    IF Good(ev.lines) = Len(ev.lines) THEN {doc \o ev.lines}
    ELSE {doc \o SubSeq(ev.lines, 1, k) : k \in 0..Good(ev.lines)}
Shown(d) == [k \in DOMAIN d |-> Stored(d[k].name, d[k].args)]

Clause(ev) ==
    LET ok == Good(ev.lines) = Len(ev.lines)
        fits == {d \in Targets(ev) : Shown(d) = ev.gates}
        d == CHOOSE x \in fits : TRUE
    IN  IF ok /\ ev.err # "" THEN "valid instruction rejected"
        ELSE IF ~ok /\ ev.err = "" THEN "invalid instruction accepted"
        ELSE IF fits = {} THEN "stored instructions"
        ELSE IF ev.text # Lines(d) THEN "printed text"
        ELSE IF ev.reparsed # Shown(d) THEN "printed text does not parse back"
        ELSE IF ev.nq # NumQubits(d) THEN "number of qubits"
        ELSE IF ev.nm # NumMeasured(d) THEN "number of measured qubits"
        ELSE ""

Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET ev == CS.evs[pc]
               cl == Clause(ev)
           IN  /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, ev.via \o ": " \o cl>>
               /\ doc' = IF cl = "" THEN CHOOSE d \in Targets(ev) : Shown(d) = ev.gates ELSE doc
        /\ pc' = pc + 1
        /\ UNCHANGED c
EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc
          /\ bad # <<>> \/ pc = EndPc
          /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad]))
          /\ UNCHANGED <<c, doc, bad>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
