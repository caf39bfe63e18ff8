---------------------------- MODULE CircuitTrace ----------------------------
(***************************************************************************)
(* Conformance of plaquette's tableau simulator with StabCircuit.           *)
(*                                                                         *)
(* Each case is an execution recorded from the real simulator.  For every   *)
(* instruction the recorder enumerated ALL results of the random decisions  *)
(* taken while executing that one instruction, with their exact weights,    *)
(* and then continued from one of them (pick).  The transition is accepted  *)
(* iff the recorded distribution over (tableau, records) equals Succ.       *)
(*                                                                         *)
(* cand is the set of specification states consistent with everything seen  *)
(* so far (more than one only while the block flags are not observable).    *)
(***************************************************************************)
EXTENDS StabCircuit, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, pc, cand, bad
vars == <<c, pc, cand, bad>>

SetOf(s) == {s[i] : i \in DOMAIN s}
RowOf(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), IF r[3] = 1 THEN {0} ELSE {})
TabOf(t) == [d |-> [i \in DOMAIN t.d |-> RowOf(t.d[i])],
             s |-> [i \in DOMAIN t.s |-> RowOf(t.s[i])]]

InitOf(cs) == IF cs.init = <<>> THEN Start(cs.n)
              ELSE [Start(cs.n) EXCEPT !.tab = TabOf(cs.init[1])]

Init == /\ c \in DOMAIN Cases
        /\ pc = 1
        /\ cand = {InitOf(Cases[c])}
        /\ bad = <<>>

Obs(o) == [n |-> o.w[1], d |-> o.w[2],
           st |-> [tab |-> TabOf(o.tab), meas |-> o.meas, eras |-> o.eras]]

(* The failing clause of one recorded step against one candidate, or "".    *)
Clause(e, st) ==
    IF ~Accepts(st, e.ins)
    THEN IF e.err = "" THEN "accepted an instruction outside of an error block" ELSE ""
    ELSE IF e.err # "" THEN "rejected or failed on a valid instruction: " \o e.err
    ELSE
    LET want == Succ(st, e.ins)
        got == [i \in DOMAIN e.succ |-> Obs(e.succ[i])]
        n == NQ(st.tab)
    IN
    IF \E i \in DOMAIN got : \/ Len(got[i].st.tab.s) # n \/ Len(got[i].st.tab.d) # n
                             \/ ~ValidTab(got[i].st.tab)
    THEN "state is not a valid tableau"
    ELSE IF \E i \in DOMAIN got : \A k \in DOMAIN want : got[i].st.meas # want[k].st.meas
    THEN "measurement record"
    ELSE IF \E i \in DOMAIN got : \A k \in DOMAIN want : got[i].st.eras # want[k].st.eras
    THEN "erasure record"
    ELSE IF \E i \in DOMAIN got : \A k \in DOMAIN want : ~SameObs(got[i].st, want[k].st)
    THEN "quantum state after the instruction"
    ELSE IF \E k \in DOMAIN want :
              Weight(want, LAMBDA o : SameObs(o.st, want[k].st))
              # Weight(got, LAMBDA o : SameObs(o.st, want[k].st))
    THEN "probability of an outcome"
    ELSE ""

Matching(e, st) ==
    IF e.err # "" THEN {}
    ELSE LET want == Succ(st, e.ins)
             p == Obs(e.succ[e.pick]).st
         IN  {want[k].st : k \in {j \in DOMAIN want : SameObs(p, want[j].st)}}

Step == LET e == Cases[c].steps[pc]
            ok == {st \in cand : Clause(e, st) = ""}
        IN  /\ pc <= Len(Cases[c].steps)
            /\ bad = <<>>
            /\ IF ok = {}
               THEN /\ bad' = <<pc, Clause(e, CHOOSE st \in cand : TRUE)>>
                    /\ cand' = cand
               ELSE /\ bad' = bad
                    /\ cand' = UNION {Matching(e, st) : st \in ok}
            /\ pc' = pc + 1
            /\ UNCHANGED c

(* What the public accessor returns once the program has been executed.      *)
FinalClause(f) ==
    LET st == CHOOSE s \in cand : TRUE IN
    IF f.skip THEN ""
    ELSE IF f.meas # st.meas THEN "returned measurement results"
    ELSE IF f.eras # st.eras THEN "returned erasure information"
    ELSE IF f.none # (st.eras = <<>>) THEN "erasure information present without/absent with erasures"
    ELSE IF ~f.ended THEN "stepping does not end with the program"
    ELSE ""

Final == /\ pc = Len(Cases[c].steps) + 1
         /\ bad = <<>>
         /\ cand # {}
         /\ FinalClause(Cases[c].final) # ""
         /\ bad' = <<pc, FinalClause(Cases[c].final)>>
         /\ UNCHANGED <<c, pc, cand>>

Report == LET done == pc = Len(Cases[c].steps) + 1 \/ bad # <<>>
          IN  /\ done
              /\ ~(bad = <<>> /\ cand # {} /\ FinalClause(Cases[c].final) # "")
              /\ pc' = Len(Cases[c].steps) + 2
              /\ pc # pc'
              /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad]))
              /\ UNCHANGED <<c, cand, bad>>

Next == (pc <= Len(Cases[c].steps) /\ Step) \/ Final \/ Report
Spec == Init /\ [][Next]_vars

\* Invariants of the specification side, evaluated along every trace.
SpecValid == \A st \in cand : ValidTab(st.tab)
BranchInv == \A st \in cand : st.branch => st.applied
=============================================================================
