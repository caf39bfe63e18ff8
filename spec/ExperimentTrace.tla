-------------------------- MODULE ExperimentTrace --------------------------
(***************************************************************************)
(* Recorded experiments.  kind "history": configurations changed, parts     *)
(* built and used in any order; the parts found after every step must have   *)
(* been built from what the specification says.  kind "exact", "odds",       *)
(* "repeat": results of runs.  kind "decoder": corrections of the decoder.    *)
(* kind "process": equal seeds, other processes.  kind "file": from files.    *)
(***************************************************************************)
EXTENDS Experiment, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, cfg, b, bad
vars == <<c, pc, cfg, b, bad>>
CS == Cases[c]
SetOf(q) == {q[k] : k \in DOMAIN q}

Op(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Ops(s) == [i \in DOMAIN s |-> Op(s[i])]
CodeOf(cs) == [n |-> cs.n, stabs |-> Ops(cs.stabs), logs |-> Ops(cs.logs)]
SelOf(cs) == [k \in DOMAIN cs.sel |-> cs.sel[k] + 1]

(* --- single runs -------------------------------------------------------- *)
RunsOk(cs) == cs.runs = -1 \/ cs.runs = cs.shots
ShapeOk(cs) == LET s == Shape(cs.name, cs.L)
               IN  cs.n = s.n /\ Len(cs.stabs) = s.s /\ Len(cs.logs) = 2 * s.k

ExactClause(cs) ==
    LET code == CodeOf(cs)
        f == Fails(cs.name, cs.L, code, SelOf(cs), cs.rounds, Op(cs.err))
    IN  IF cs.refused THEN "experiment refused"
        ELSE IF ~ShapeOk(cs) THEN "size of the code"
        ELSE IF ~RunsOk(cs) THEN "number of shots"
        ELSE IF ~cs.whole THEN "result is not a fraction of the shots"
        ELSE IF f = 0 /\ cs.k # 0 THEN "failures without a reason"
        ELSE IF f = 1 /\ cs.k # cs.shots THEN "failures overlooked"
        ELSE IF cs.k \notin {0, cs.shots} /\ cs.rounds = 1 /\ Cardinality(SetOf(cs.sel)) = 1
                /\ Undetected(code, Op(cs.err)) THEN "certain result varies"
        ELSE ""

OddsClause(cs) ==
    IF cs.refused THEN "experiment refused"
    ELSE IF ~RunsOk(cs) THEN "number of shots"
    ELSE IF ~cs.whole THEN "result is not a fraction of the shots"
    ELSE IF ~Likely(cs.k, cs.shots, Odds(cs.L, cs.rounds, cs.err, cs.log)) THEN "unlikely result"
    ELSE ""

\* res : <<seed, failures>> of runs that differ in nothing else.
RepeatClause(cs) ==
    IF cs.refused THEN "experiment refused"
    ELSE IF ~cs.whole THEN "result is not a fraction of the shots"
    ELSE IF \E i, j \in DOMAIN cs.res : cs.res[i][1] = cs.res[j][1] /\ cs.res[i][2] # cs.res[j][2]
    THEN "result not reproducible"
    ELSE IF \A i, j \in DOMAIN cs.res : cs.res[i][2] = cs.res[j][2] THEN "seed without effect"
    ELSE ""

\* Runs of one configuration in separate processes.
ProcessClause(cs) ==
    IF cs.refused THEN "experiment refused"
    ELSE IF \E i, j \in DOMAIN cs.res : cs.res[i] # cs.res[j] THEN "result depends on the process"
    ELSE ""

DecoderClause(cs) ==
    LET ok(d) == LET best == Cheapest(cs.L, IF cs.weighted THEN cs.w ELSE [i \in 1..cs.L |-> 1], SetOf(d.syn))
                 IN  Cardinality(best) = 1 => SetOf(d.x) \in best /\ d.z = <<>>
    IN  IF cs.refused THEN "experiment refused"
        ELSE IF \A k \in DOMAIN cs.dec : ok(cs.dec[k]) THEN "" ELSE "correction"

FileClause(cs) ==
    IF cs.has_errors THEN IF cs.refused THEN "circuit of a file refused"
                          ELSE IF ~cs.same THEN "circuit differs from that of the file" ELSE ""
    ELSE IF ~cs.refused THEN "circuit without errors accepted" ELSE ""

Single(cs) == CASE cs.kind = "exact" -> ExactClause(cs)
                [] cs.kind = "odds" -> OddsClause(cs)
                [] cs.kind = "repeat" -> RepeatClause(cs)
                [] cs.kind = "process" -> ProcessClause(cs)
                [] cs.kind = "decoder" -> DecoderClause(cs)
                [] cs.kind = "file" -> FileClause(cs)

(* --- histories ------------------------------------------------------------ *)
Can(ev) == CASE ev.op = "build" -> CanBuildAll(cfg)
             [] ev.op = "part" -> CanBuild(cfg, b, ev.part)
             [] ev.op = "access" -> CanAccess(b, ev.part)
             [] OTHER -> TRUE
CfgAfter(ev) == CASE ev.op = "new" -> ev.cfg
                  [] ev.op = "set" -> ev.cfg
                  [] OTHER -> cfg
BAfter(ev) ==
    IF ~Can(ev) THEN b
    ELSE CASE ev.op = "new" -> NotBuilt
           [] ev.op = "build" -> BuildAll(cfg, b)
           [] ev.op = "part" -> BuildOne(cfg, b, ev.part)
           [] ev.op = "access" -> Access(cfg, b, ev.part)
           [] OTHER -> b

\* Errors of another code: what can be built from them is open.
Open(ev) == ev.op = "part" /\ ev.part \in {"circuit", "decoder"} /\ Can(ev) /\ b.errors[1].on # b.code[1]
PartOk(o, cf, bb, x) ==
    IF o.refused THEN ~CanAccess(bb, x)
    ELSE CanAccess(bb, x) /\ (o.unknown \/ Access(cf, bb, x)[x][1] \in SetOf(o.cands))

Clause(ev) ==
    LET cf == CfgAfter(ev)
        bb == BAfter(ev)
    IN  IF ev.op = "derive" /\ Made(b, "code") /\ ev.refused THEN ev.what \o " refused"
        ELSE IF ev.op = "derive" /\ Made(b, "code") /\ b.code[1] \notin SetOf(ev.cands) THEN ev.what \o " of another code"
        ELSE IF ev.op # "derive" /\ ev.refused # ~Can(ev) THEN ev.op \o (IF ev.refused THEN " refused" ELSE " of nothing accepted")
        ELSE IF ev.refused /\ ev.op \notin {"access", "derive"} THEN ""
        ELSE IF \A x \in Parts : PartOk(ev.obs[x], cf, bb, x) THEN ""
        ELSE "after " \o ev.op \o ": " \o (CHOOSE x \in Parts : ~PartOk(ev.obs[x], cf, bb, x))

Init == /\ c \in DOMAIN Cases /\ pc = 1 /\ bad = <<>> /\ b = NotBuilt
        /\ cfg = [code |-> "", errs |-> "", log |-> "", dev |-> "", dec |-> "", weighted |-> FALSE]
EndPc == IF CS.kind = "history" THEN Len(CS.evs) + 1 ELSE 2
Step == /\ bad = <<>> /\ pc < EndPc
        /\ IF CS.kind # "history"
           THEN /\ bad' = (LET s == Single(CS) IN IF s = "" THEN <<>> ELSE <<1, s>>)
                /\ pc' = pc + 1 /\ UNCHANGED <<cfg, b>>
           ELSE LET ev == CS.evs[pc]
                IN  IF Open(ev) THEN pc' = EndPc /\ UNCHANGED <<cfg, b, bad>>
                    ELSE /\ bad' = (LET s == Clause(ev) IN IF s = "" THEN <<>> ELSE <<pc, s>>)
                         /\ cfg' = CfgAfter(ev) /\ b' = BAfter(ev)
                         /\ pc' = pc + 1
        /\ UNCHANGED c
Report == /\ pc <= EndPc
          /\ bad # <<>> \/ pc = EndPc
          /\ pc' = EndPc + 1
          /\ PrintT(ToJson([id |-> CS.id, bad |-> bad]))
          /\ UNCHANGED <<c, cfg, b, bad>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
