---------------------------- MODULE LatticeTrace ----------------------------
(* Recorded editing sessions on code lattices.  After every operation the     *)
(* whole object graph is recorded from every direction it can be walked.      *)
EXTENDS Lattice, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, lat, sch, ext, bad
vars == <<c, pc, lat, sch, ext, bad>>
CS == Cases[c]
Load(s) == [data |-> s.data, stabs |-> s.stabs, logs |-> s.logs, edges |-> Elems(s.edges),
            info |-> [v \in Elems(s.stabs) \cup Elems(s.logs) |->
                        (CHOOSE x \in Elems(s.info) : x[1] = v)[2]]]
LoadSched(s) == LET on == {x \in Elems(s.time) : x[2] # -1}
                IN  [n |-> s.steps, at |-> [e \in {x[1] : x \in on} |-> (CHOOSE x \in on : x[1] = e)[2]]]
Init == /\ c \in DOMAIN Cases /\ pc = 1
        /\ lat = IF CS.start = <<>> THEN Empty ELSE Load(CS.start[1])
        /\ sch = IF CS.start = <<>> THEN NoSchedule ELSE LoadSched(CS.start[1])
        /\ ext = IF CS.start = <<>> THEN <<>> ELSE CS.start[1].ext
        /\ bad = IF CS.start = <<>> THEN <<>>
                 ELSE IF ~WellFormed(Load(CS.start[1])) THEN <<0, "initial lattice">> ELSE <<>>

Row(r) == PauliOp(Elems(r[1]), Elems(r[2]), {})
Rows(rs) == [i \in DOMAIN rs |-> Row(rs[i])]
\* Looking for a vertex: found, nothing there (refused on request), outside.
Look(l, p) == IF \E i \in {1, 2} : p[i] >= CS.shape[i] THEN <<"IndexError", "IndexError">>
              ELSE IF p \in Occupied(l) THEN <<"found", "found">> ELSE <<"none", "ValueError">>
\* What one sees of lattice l when walking over it.
Clause(ev) ==
    IF ~Can(lat, ev.o) THEN IF ev.err = "" THEN "not refused" ELSE ""
    ELSE IF ev.err # "" THEN "refused: " \o ev.err
    ELSE LET l == Do(lat, ev.o) s == ev.show IN
         IF s.data # l.data THEN "list of data qubits"
         ELSE IF s.stabs # l.stabs THEN "list of stabilizer generators"
         ELSE IF s.logs # l.logs THEN "list of logical operators"
         ELSE IF Len(s.edges) # Cardinality(l.edges) \/ Elems(s.edges) # l.edges THEN "edges"
         ELSE IF \E v \in Elems(s.info) : IsOp(l, v[1]) /\ l.info[v[1]] # v[2] THEN "group or name"
         ELSE IF Len(s.vertices) # Len(s.data) + Len(s.stabs) + Len(s.logs)
                 \/ Elems(s.vertices) # Occupied(l) THEN "list of vertices"
         ELSE IF Elems(s.grid) # Occupied(l) \/ Len(s.grid) # Cardinality(Occupied(l)) THEN "lattice sites"
         ELSE IF \E i \in DOMAIN s.adj :
                    LET v == s.adj[i][1] IN
                    \/ Elems(s.adj[i][2]) # EdgesOf(l, v) \/ Len(s.adj[i][2]) # Cardinality(EdgesOf(l, v))
                    \/ Elems(s.adj[i][3]) # {IF e[1] = v THEN e[2] ELSE e[1] : e \in EdgesOf(l, v)}
                    \/ Len(s.adj[i][3]) # Cardinality(EdgesOf(l, v))
              THEN "adjacency of a vertex"
         ELSE IF LoadSched(s) # Reschedule(sch, lat, ev.o, l) THEN "measurement schedule"
         ELSE IF s.ext # Renumber(ext, ev.o, l) THEN "numbered qubits"
         ELSE IF \E i \in DOMAIN s.look : s.look[i][2] # Look(l, s.look[i][1]) THEN "vertex at a position"
         ELSE IF ev.o.op = "assign" /\ s.isdata # [i \in DOMAIN l.data |-> i - 1] THEN "indices taken for data qubits"
         ELSE IF ev.o.op = "assign" /\ s.isstab # [i \in DOMAIN l.stabs |-> Len(l.data) + i - 1]
              THEN "indices taken for stabilizer generators"
         ELSE IF ev.o.op = "assign" /\ s.idx # l.data \o l.stabs \o l.logs THEN "extended qubit indices"
         ELSE IF ev.o.op = "assign" /\ s.own # <<l.data, l.stabs, l.logs>> THEN "own indices"
         ELSE IF s.hasops /\ (Rows(s.sops) # CodeOf(l).stabs \/ Rows(s.lops) # CodeOf(l).logs)
              THEN "operators"
         ELSE ""
Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET ev == CS.evs[pc] cl == Clause(ev) IN
              /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, ev.o.op \o ": " \o cl>>
              /\ lat' = IF cl = "" /\ Can(lat, ev.o) THEN Do(lat, ev.o) ELSE lat
              /\ sch' = IF cl = "" /\ Can(lat, ev.o) THEN Reschedule(sch, lat, ev.o, lat') ELSE sch
              /\ ext' = IF cl = "" /\ Can(lat, ev.o) THEN Renumber(ext, ev.o, lat') ELSE ext
        /\ pc' = pc + 1 /\ UNCHANGED c
EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc /\ (bad # <<>> \/ pc = EndPc) /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad])) /\ UNCHANGED <<c, lat, sch, ext, bad>>
Spec == Init /\ [][Step \/ Report]_vars
Inv == WellFormed(lat)
=============================================================================
