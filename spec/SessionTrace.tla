---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded device sessions against Session.  Every event carries what the  *)
(* public accessors show after the call: records (m, e), whether erasure    *)
(* information is None, the tableau for tableau backends, or an error.      *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, pc, circs, dev, samp, bad
vars == <<c, pc, circs, dev, samp, bad>>
CS == Cases[c]

SetOf(s) == {s[i] : i \in DOMAIN s}
RowOf(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), IF r[3] = 1 THEN {0} ELSE {})
TabOf(t) == [d |-> [i \in DOMAIN t.d |-> RowOf(t.d[i])],
             s |-> [i \in DOMAIN t.s |-> RowOf(t.s[i])]]

Init == /\ c \in DOMAIN Cases
        /\ pc = 1
        /\ circs = Cases[c].circs
        /\ dev = [i \in DOMAIN Cases[c].devs |-> NoDev(Cases[c].devs[i])]
        /\ samp = {}      \* Stim: what was seen for (device, circuit, draw number)
        /\ bad = <<>>

After(ev) ==
    LET d == dev[ev.d] IN
    CASE ev.op = "run" -> RunDev(d, ev.cid, circs[ev.cid], ev.reset, ev.m, ev.e)
      [] ev.op = "reset" -> [Clear(d) EXCEPT !.ptr = Len(d.prog) + 1]
      [] ev.op = "iter" -> [d EXCEPT !.ptr = 1]
      [] ev.op = "next" -> StepDev(d, ev.m, ev.e)
      [] ev.op = "sample" -> d

Edits(ev) == ev.op \in {"append", "replace"}
Clause(ev) ==
    IF Edits(ev) THEN ""
    ELSE LET d == dev[ev.d] IN
    IF ev.op = "run" /\ d.kind = "stim" /\ ~ev.reset
    THEN IF ev.err = "" THEN "Stim run without reset not rejected" ELSE ""
    ELSE IF ev.err # "" THEN ev.op \o " failed: " \o ev.err
    ELSE LET a == After(ev)
             shown == {s \in a.cands : s.meas = ev.m /\ s.eras = ev.e}
         IN
         IF shown = {}
         THEN IF {s \in a.cands : Len(s.meas) = Len(ev.m)} = {} /\ a.cands # {}
              THEN ev.op \o ": wrong number of results"
              ELSE ev.op \o ": results are not those of the executed circuit"
         ELSE IF ev.none # (ev.e = <<>>) THEN ev.op \o ": erasure information None-ness"
         ELSE IF ev.op = "next" /\ ev.stop # (d.ptr > Len(d.prog))
         THEN "next: wrong end of the program"
         ELSE IF ev.tab # <<>> /\ {s \in shown : ValidTab(TabOf(ev.tab[1])) /\ SameState(s.tab, TabOf(ev.tab[1]))} = {}
         THEN ev.op \o ": quantum state"
         ELSE IF ev.tab # <<>> /\ ev.nq # Width(a.prog) THEN ev.op \o ": number of qubits"
         ELSE IF ev.draw # <<>> /\ \E x \in samp : x[1] = ev.draw /\ x[2] # <<ev.m, ev.e>>
         THEN "same seed and draw number, different sample"
         ELSE ""

Step == /\ bad = <<>> /\ pc <= Len(CS.evs)
        /\ LET ev == CS.evs[pc]
               cl == Clause(ev)
           IN  /\ bad' = IF cl = "" THEN <<>> ELSE <<pc, cl>>
               /\ circs' = IF ev.op = "append"
                           THEN [circs EXCEPT ![ev.cid] = Append(@, ev.ins)]
                           ELSE IF ev.op = "replace"
                           THEN [circs EXCEPT ![ev.cid] = [@ EXCEPT ![ev.at] = ev.ins]] ELSE circs
               /\ dev' = IF cl # "" \/ Edits(ev) \/ ev.err # "" THEN dev
                         ELSE [dev EXCEPT ![ev.d] =
                                 [After(ev) EXCEPT !.cands =
                                    {s \in @ : /\ s.meas = ev.m /\ s.eras = ev.e
                                               /\ (ev.tab = <<>> \/ SameState(s.tab, TabOf(ev.tab[1])))}]]
               /\ samp' = IF cl = "" /\ ev.op = "run" /\ ev.draw # <<>>
                          THEN samp \cup {<<ev.draw, <<ev.m, ev.e>>>>} ELSE samp
        /\ pc' = pc + 1
        /\ UNCHANGED c

EndPc == Len(CS.evs) + 1
Report == /\ pc <= EndPc
          /\ bad # <<>> \/ pc = EndPc
          /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id,
                            bad |-> IF bad = <<>> /\ ~CS.repro
                                    THEN <<EndPc, "same seed, different results">> ELSE bad]))
          /\ UNCHANGED <<c, circs, dev, samp, bad>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars

DevValid == \A i \in DOMAIN dev : \A s \in dev[i].cands : ValidTab(s.tab)
=============================================================================
