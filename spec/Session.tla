------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A working session with devices: circuits are mutable objects, devices    *)
(* lazily build a backend for the circuit they are asked to run.            *)
(*                                                                         *)
(*   circs : circuit id -> program (as it stands now)                       *)
(*   dev   : device id -> [kind, live, cid, prog, cands, ptr]               *)
(*                                                                         *)
(* kind is "clifford", "stim", or "sim" (a CircuitSimulator used directly). *)
(* cands: the machine states the device may be in (measurement outcomes of  *)
(* random measurements are resolved by what was observed).                  *)
(***************************************************************************)
EXTENDS StabCircuit, FiniteSetsExt

RECURSIVE MaxSeq(_, _)
MaxSeq(s, m) == IF s = <<>> THEN m ELSE MaxSeq(Tail(s), IF Head(s) > m THEN Head(s) ELSE m)
RECURSIVE NQOf(_, _)
NQOf(prog, m) == IF prog = <<>> THEN m + 1 ELSE NQOf(Tail(prog), MaxSeq(Head(prog).q, m))
Width(prog) == NQOf(prog, 0)

SubSeqOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

\* One instruction from a set of states, keeping those whose records are
\* prefixes of (m, e).
StepSet(cands, ins, m, e) ==
    {st \in UNION {{Succ(s, ins)[k].st : k \in DOMAIN Succ(s, ins)} : s \in cands} :
        SubSeqOf(st.meas, m) /\ SubSeqOf(st.eras, e)}
RECURSIVE RunSet(_, _, _, _, _)
RunSet(cands, prog, from, m, e) ==
    IF from > Len(prog) \/ cands = {} THEN cands
    ELSE RunSet(StepSet(cands, prog[from], m, e), prog, from + 1, m, e)

Clear(d) == [d EXCEPT !.cands = {Start(Width(d.prog))}]
NoDev(k) == [kind |-> k, live |-> FALSE, cid |-> 0, prog |-> <<>>, cands |-> {}, ptr |-> 1]

\* The device as it is right before executing circuit cid.
Prepared(d, cid, prog, reset) ==
    LET fresh == [kind |-> d.kind, live |-> TRUE, cid |-> cid, prog |-> prog,
                  cands |-> {Start(Width(prog))}, ptr |-> 1]
    IN  IF ~d.live \/ d.cid # cid \/ reset THEN fresh ELSE [d EXCEPT !.prog = prog]

\* Device.run / simulator.run; (m, e): records returned afterwards.
RunDev(d, cid, prog, reset, m, e) ==
    LET p == Prepared(d, cid, prog, reset)
        fin == {st \in RunSet(p.cands, p.prog, 1, m, e) : st.meas = m /\ st.eras = e}
    IN  [p EXCEPT !.cands = fin, !.ptr = Len(prog) + 1]

\* Stepping: the pointer restarts at iter(), the state does not.
StepDev(d, m, e) ==
    IF d.ptr > Len(d.prog) THEN d
    ELSE [d EXCEPT !.cands = {st \in StepSet(@, d.prog[d.ptr], m, e) : st.meas = m /\ st.eras = e},
                   !.ptr = @ + 1]
=============================================================================
