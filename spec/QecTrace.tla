------------------------------ MODULE QecTrace ------------------------------
(***************************************************************************)
(* Circuits generated by plaquette, executed symbolically instruction by    *)
(* instruction (kind "noisefree"), and their error instructions compared    *)
(* with the placement rules (kind "noisy").                                 *)
(***************************************************************************)
EXTENDS QecCircuit, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, st, bad
vars == <<c, pc, st, bad>>

Op(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Ops(s) == [i \in DOMAIN s |-> Op(s[i])]
JobOf(cs) == [code |-> [n |-> cs.n, stabs |-> Ops(cs.stabs), logs |-> Ops(cs.logs)],
              sel |-> [k \in DOMAIN cs.sel |-> cs.sel[k] + 1],
              rounds |-> cs.rounds, anc |-> cs.anc]
NQubits(cs) == Max({0, cs.n - 1} \cup UNION {SetOf(cs.prog[j].q) : j \in DOMAIN cs.prog}) + 1

Plain == {"H", "X", "Y", "Z", "CX", "CZ", "M", "R"}

\* Everything that can be said before running the program.
Static(cs) ==
    LET job == JobOf(cs) IN
    CASE cs.kind = "request" ->
           (IF cs.valid = (cs.err = "") THEN "" ELSE IF cs.valid THEN "valid request refused" ELSE "invalid request accepted")
      [] Refused(job) -> IF cs.err = "" THEN "operators that cannot be measured were accepted" ELSE ""
      [] cs.err # "" -> "valid request refused"
      [] cs.kind = "noisy" ->
           IF cs.kept # 1 THEN "code or error data modified"
           ELSE IF SameProgram(cs.noisy, Place(job, cs.errs, cs.prog, 0, 1, <<>>)) THEN ""
           ELSE "errors are not where the error data puts them"
      [] \E j \in DOMAIN cs.prog : cs.prog[j].g \notin Plain -> "error instruction without error data"
      [] OTHER -> ""
Running(cs) == cs.kind = "noisefree" /\ cs.err = "" /\ ~Refused(JobOf(cs)) /\ Measurable(JobOf(cs))

Init == /\ c \in DOMAIN Cases
        /\ pc = 0
        /\ st = [tab |-> ZeroTab(1), meas |-> <<>>]
        /\ bad = <<>>

EndPc(cs) == IF Running(cs) THEN Len(cs.prog) + 1 ELSE 1

Start ==
    /\ pc = 0 /\ pc' = 1
    /\ LET s == Static(Cases[c]) IN bad' = IF s = "" THEN <<>> ELSE <<0, s>>
    /\ st' = IF Running(Cases[c]) THEN SymStart(NQubits(Cases[c])) ELSE st
    /\ UNCHANGED c

Step ==
    LET cs == Cases[c]  job == JobOf(cs)  ins == cs.prog[pc]
        st1 == SymGate(st, ins.g, ins.q)
        r == IF ins.g = "M" THEN RoundAt(job, Len(st1.meas)) ELSE 0
        k == Len(st1.meas)
        clause == IF k > NMeas(job) THEN "too many measurements"
                  ELSE IF r = 1 /\ ~Prepared(job, st1)
                  THEN "prepared state is not stabilised by the measured operators"
                  ELSE IF r > 1 /\ ~SyndromeOk(job, st1.meas, r - 1)
                  THEN "syndrome of a round"
                  ELSE ""
    IN  /\ pc >= 1 /\ pc < EndPc(cs) /\ bad = <<>>
        /\ bad' = IF clause = "" THEN <<>> ELSE <<pc, clause>>
        /\ st' = IF r = 0 THEN st1 ELSE Inject(job, st1, r)
        /\ pc' = pc + 1
        /\ UNCHANGED c

EndClause(cs) ==
    LET job == JobOf(cs) IN
    IF Len(st.meas) # NMeas(job) THEN "number of measurements"
    ELSE IF ~SyndromeOk(job, st.meas, job.rounds) THEN "syndrome of a round"
    ELSE IF ~ToggleOk(job, st.meas) THEN "value of a logical operator"
    ELSE ""

Report ==
    LET cs == Cases[c]
        b == IF bad # <<>> THEN bad
             ELSE IF Running(cs) THEN (LET e == EndClause(cs) IN IF e = "" THEN <<>> ELSE <<pc, e>>)
             ELSE <<>>
    IN  /\ pc >= 1 /\ (bad # <<>> \/ pc = EndPc(cs))
        /\ pc < 1000000
        /\ PrintT(ToJson([id |-> cs.id, bad |-> b]))
        /\ pc' = 1000000
        /\ bad' = b
        /\ UNCHANGED <<c, st>>

Next == Start \/ Step \/ Report
Spec == Init /\ [][Next]_vars
Inv == pc # 0 /\ pc < 1000000 => ValidTab(st.tab)
=============================================================================
