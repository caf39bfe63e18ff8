---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Recorded histories of experiment configurations: documents read from     *)
(* dictionaries and files, parts changed and replaced, configurations        *)
(* written.  After every step all attributes and the simulated errors must   *)
(* be those of the specification.                                          *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, s, bad
vars == <<c, pc, s, bad>>
CS == Cases[c]
SetOf(q) == {q[k] : k \in DOMAIN q}
FS == [exist |-> SetOf(CS.exist), nodir |-> SetOf(CS.nodir)]

NormQ(e) == IF e.d = "s:" /\ e.p = <<>> THEN NoQ ELSE e
NormG(e) == IF e.d = <<"s:">> \/ e.d = <<>> THEN NoG ELSE e
Kinds(k, N(_)) == [x \in DOMAIN k |-> N(k[x])]
Seen(o) == [o EXCEPT !.qubit.kinds = Kinds(@, NormQ), !.gate.kinds = Kinds(@, NormG)]

Readable(ev) == /\ ev.via # "dict" => Schema(ev.doc)
                /\ Read(FS, ev.doc).ok
Want(ev) ==
    CASE ev.op = "load" -> IF Readable(ev) THEN Read(FS, ev.doc) ELSE No
      [] ev.op = "change" -> Change(FS, s, ev.part, ev.label, ev.kv)
      [] ev.op = "replace" -> Replace(FS, s, ev.part, ev.doc)
      [] ev.op = "file" -> IF Schema(Write(s)) THEN Yes(s) ELSE No
      [] ev.op = "write" -> Yes(s)

Parts == {"code", "device", "decoder", "circuit", "qubit", "gate", "general"}
WrittenOk(ev) ==
    /\ Read(FS, ev.doc) = Yes(s)
    /\ ev.valid = Schema(Write(s))
    /\ \A p \in DOMAIN ev.parts : Replace(FS, s, p, ev.parts[p]) = Yes(s)

SimClause(o, live, sec, what) ==
    IF sec.sample # "true" THEN IF o.none THEN "" ELSE what \o " simulated that are switched off"
    ELSE IF o.none \/ o.path # sec.data_path \/ SetOf(o.errs) # live
    THEN "simulated " \o what ELSE ""

Clause(ev) ==
    LET w == Want(ev) IN
    IF ev.refused THEN (IF w.ok THEN "valid configuration refused" ELSE "")
    ELSE IF ~w.ok THEN "invalid configuration accepted"
    ELSE IF ~ev.same THEN "given document or other configuration touched"
    ELSE IF Seen(ev.obs) # w.c
    THEN "configuration: " \o (CHOOSE p \in Parts : Seen(ev.obs)[p] # w.c[p])
    ELSE IF ev.op = "write" /\ ~WrittenOk(ev) THEN "written configuration"
    ELSE LET q == SimClause(ev.simq, SimQ(w.c.qubit), w.c.qubit, "qubit errors")
             g == SimClause(ev.simg, SimG(w.c.gate), w.c.gate, "gate errors")
         IN  IF q # "" THEN q ELSE g

Init == c \in DOMAIN Cases /\ pc = 1 /\ s = <<>> /\ bad = <<>>
Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET ev == CS.evs[pc]
               cl == Clause(ev)
           IN  /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, ev.op \o ": " \o cl>>
               /\ s' = IF ev.refused THEN s ELSE Seen(ev.obs)
        /\ pc' = pc + 1
        /\ UNCHANGED c
EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc
          /\ bad # <<>> \/ pc = EndPc
          /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad]))
          /\ UNCHANGED <<c, s, bad>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
