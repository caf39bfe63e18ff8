---------------------------- MODULE PluginTrace -----------------------------
(* Recorded histories of devices with plugin backends that log their calls.   *)
EXTENDS Plugin, Json, IOUtils, TLC
VARIABLES c, pc, s, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
CS == Cases[c]
vars == <<c, pc, s, bad>>
Init == c \in DOMAIN Cases /\ pc = 1 /\ s = Start /\ bad = <<>>
After(e) ==
    CASE e.op = "register" -> Register(s, e.name)
      [] e.op = "create" -> IF Known(s, e.name) THEN Create(s, e.name, e.args) ELSE s
      [] e.op = "call" -> IF s.owner[e.d] = 0 THEN s ELSE Call(s, e.d, e.what)
\* e.log: all backends and their calls so far; e.ret: what came back; e.want: what the backend (or simulator) gave.
Clause(e) ==
    LET t == After(e) IN
    IF e.op = "create" /\ ~Known(s, e.name) THEN IF e.err = "ValueError" THEN IF e.log = s.made THEN "" ELSE "backend of a refused device" ELSE "unknown backend accepted"
    ELSE IF e.err # e.fails THEN "fails: " \o e.err
    ELSE IF Len(e.log) # Len(t.made) THEN "number of backends"
    ELSE IF \E i \in DOMAIN e.log : e.log[i].name # t.made[i].name THEN "another backend"
    ELSE IF \E i \in DOMAIN e.log : e.log[i].args # t.made[i].args THEN "arguments of the backend"
    ELSE IF e.log # t.made THEN "requests to the backend"
    ELSE IF e.ret # e.want THEN "answer of the backend"
    ELSE ""
Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET e == CS.evs[pc] cl == Clause(e) IN
              /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, e.op \o ": " \o cl>>
              /\ s' = IF cl = "" THEN After(e) ELSE s
        /\ pc' = pc + 1 /\ UNCHANGED c
EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc /\ (bad # <<>> \/ pc = EndPc) /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad])) /\ UNCHANGED <<c, s, bad>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
