----------------------------- MODULE QecCircuit -----------------------------
(***************************************************************************)
(* What a circuit for an error correction experiment has to do.             *)
(*                                                                         *)
(* Circuits are executed symbolically: every random measurement outcome is  *)
(* a fresh variable, and immediately before each of the R rounds a Pauli    *)
(* frame with two fresh variables per data qubit (X part and Z part) hits   *)
(* the data qubits.  One symbolic execution covers every outcome and every  *)
(* pattern of data errors.                                                  *)
(*                                                                         *)
(* A job is [code |-> [n, stabs, logs], sel |-> selected logicals,          *)
(*           rounds |-> R, anc |-> logicals measured through ancillas].     *)
(***************************************************************************)
EXTENDS StabCode, TLC

FrameBase == 1000000
FX(job, r, q) == FrameBase + 2 * ((r - 1) * job.code.n + q)
FZ(job, r, q) == FX(job, r, q) + 1

W(job, k) == IF job.anc THEN 1 ELSE Cardinality(Support(job.code.logs[job.sel[k]]))
RECURSIVE SumW(_, _)
SumW(job, k) == IF k = 0 THEN 0 ELSE W(job, k) + SumW(job, k - 1)
Wall(job) == SumW(job, Len(job.sel))
NS(job) == Len(job.code.stabs)
NMeas(job) == 2 * Wall(job) + (job.rounds + 1) * NS(job)

\* The ways a request can be unacceptable.
HasY(p) == p.x \cap p.z # {}
Compatible(p, q) == \A d \in Support(p) \cap Support(q) :
                      (d \in p.x <=> d \in q.x) /\ (d \in p.z <=> d \in q.z)
Refused(job) ==
    \/ \E i, j \in DOMAIN job.sel : Anti(job.code.logs[job.sel[i]], job.code.logs[job.sel[j]])
    \/ \E i \in DOMAIN job.sel : HasY(job.code.logs[job.sel[i]])
    \/ \E i \in DOMAIN job.code.stabs : HasY(job.code.stabs[i])
\* Measuring qubit by qubit needs operators that agree where they overlap.
Measurable(job) == job.anc \/ \A i, j \in DOMAIN job.sel :
                      Compatible(job.code.logs[job.sel[i]], job.code.logs[job.sel[j]])

-----------------------------------------------------------------------------
(* Symbolic execution.  st = [tab, meas]; meas: sequence of forms.          *)
SymStart(n) == [tab |-> ZeroTab(n), meas |-> <<>>]

On(tab, qs, Op(_)) ==
    LET f(p) == IF p.x \cap qs = {} /\ p.z \cap qs = {} THEN p ELSE Op(p) IN MapTab(tab, f)

SymM(st, q) ==
    LET v == Len(st.meas) + 1 IN
    IF IsRandom(st.tab, PZ(q))
    THEN [tab |-> Collapse(st.tab, PZ(q), {v}), meas |-> Append(st.meas, {v})]
    ELSE [st EXCEPT !.meas = Append(@, DetOutcome(st.tab, PZ(q)))]

\* Reset: measure, then flip if the outcome was one.
SymR(st, q) ==
    IF IsRandom(st.tab, PZ(q))
    THEN [st EXCEPT !.tab = Collapse(@, PZ(q), {})]
    ELSE LET o == DetOutcome(st.tab, PZ(q))
         IN  [st EXCEPT !.tab = IF o = {} THEN @ ELSE MapTab(@, LAMBDA p : PauliGate(p, PX(q), o))]

Sym1(st, g, q) ==
    CASE g = "H" -> [st EXCEPT !.tab = On(@, {q}, LAMBDA p : HGate(p, q))]
      [] g = "X" -> [st EXCEPT !.tab = On(@, {q}, LAMBDA p : PauliGate(p, PX(q), {0}))]
      [] g = "Y" -> [st EXCEPT !.tab = On(@, {q}, LAMBDA p : PauliGate(p, PY(q), {0}))]
      [] g = "Z" -> [st EXCEPT !.tab = On(@, {q}, LAMBDA p : PauliGate(p, PZ(q), {0}))]
      [] g = "M" -> SymM(st, q)
      [] g = "R" -> SymR(st, q)

RECURSIVE SymEach(_, _, _, _)
SymEach(st, g, qs, k) == IF k > Len(qs) THEN st ELSE SymEach(Sym1(st, g, qs[k]), g, qs, k + 1)
RECURSIVE SymPairs(_, _, _, _)
SymPairs(st, g, qs, k) ==
    IF k + 1 > Len(qs) THEN st
    ELSE LET a == qs[k]  b == qs[k + 1]
             t == On(st.tab, {a, b}, LAMBDA p : IF g = "CX" THEN CXGate(p, a, b) ELSE CZGate(p, a, b))
         IN  SymPairs([st EXCEPT !.tab = t], g, qs, k + 2)

\* Instructions with no effect on noise-free executions are skipped by the caller.
SymGate(st, g, qs) ==
    IF g \in {"CX", "CZ"} THEN SymPairs(st, g, qs, 1) ELSE SymEach(st, g, qs, 1)

\* Frame before round r on the data qubits 0 .. n-1.
FrameSign(job, r, p) ==
    {FX(job, r, q) : q \in {d \in p.z : d < job.code.n}}
    \cup {FZ(job, r, q) : q \in {d \in p.x : d < job.code.n}}
Inject(job, st, r) ==
    [st EXCEPT !.tab = MapTab(@, LAMBDA p : [p EXCEPT !.s = Xor(@, FrameSign(job, r, p))])]

\* Does a round begin once k results have been recorded?  (0: no)
RoundAt(job, k) ==
    LET m == k - Wall(job) IN
    IF m >= NS(job) /\ m % NS(job) = 0 /\ m \div NS(job) \in 1..job.rounds
    THEN m \div NS(job) ELSE 0

-----------------------------------------------------------------------------
(* Obligations.                                                             *)
RECURSIVE XorSeg(_, _, _)
XorSeg(ms, a, b) == IF a > b THEN {} ELSE Xor(ms[a], XorSeg(ms, a + 1, b))

LogIn(job, ms, k) == XorSeg(ms, SumW(job, k - 1) + 1, SumW(job, k))
LogOut(job, ms, k) ==
    LET o == Wall(job) + (job.rounds + 1) * NS(job)
    IN  XorSeg(ms, o + SumW(job, k - 1) + 1, o + SumW(job, k))
StabRes(job, ms, r, i) == ms[Wall(job) + r * NS(job) + i]

\* The state prepared by the initial measurements, before round 1.
Prepared(job, st) ==
    /\ \A i \in DOMAIN job.code.stabs :
         InGroup(st.tab, [job.code.stabs[i] EXCEPT !.s = StabRes(job, st.meas, 0, i)])
    /\ \A k \in DOMAIN job.sel :
         InGroup(st.tab, [job.code.logs[job.sel[k]] EXCEPT !.s = LogIn(job, st.meas, k)])

SyndromeOk(job, ms, r) ==
    \A i \in DOMAIN job.code.stabs :
        Xor(StabRes(job, ms, r, i), StabRes(job, ms, r - 1, i)) = FrameSign(job, r, job.code.stabs[i])

RECURSIVE AllFrames(_, _, _)
AllFrames(job, p, r) == IF r = 0 THEN {} ELSE Xor(FrameSign(job, r, p), AllFrames(job, p, r - 1))
ToggleOk(job, ms) ==
    \A k \in DOMAIN job.sel :
        Xor(LogIn(job, ms, k), LogOut(job, ms, k)) = AllFrames(job, job.code.logs[job.sel[k]], job.rounds)

-----------------------------------------------------------------------------
(* Placement of errors.  A program is a sequence of [g, q, p (strings), i]; *)
(* errors: e.pauli[q], e.erasure[q], e.meas[a], e.H[a], e.R[a], e.M[a],     *)
(* e.CX[a][d], e.CZ[a][d], given as sequences of entries [q |-> <<..>>,     *)
(* p |-> <<strings>>].                                                      *)
Entry(es, q) == LET I == {i \in DOMAIN es : es[i].q = q} IN
                IF I = {} THEN <<>> ELSE <<es[CHOOSE i \in I : TRUE].p>>
Instr(g, q, p, i) == [g |-> g, q |-> q, p |-> p, i |-> i]
RECURSIVE Channels(_, _, _, _)
Channels(errs, n, q, acc) ==
    IF q = n THEN acc
    ELSE LET pp == Entry(errs.pauli, <<q>>)
             ee == Entry(errs.erasure, <<q>>)
         IN  Channels(errs, n, q + 1,
                acc \o (IF pp = <<>> THEN <<>> ELSE <<Instr("E_PAULI", <<q>>, pp[1], "")>>)
                    \o (IF ee = <<>> THEN <<>> ELSE <<Instr("E_ERASE", <<q>>, ee[1], "")>>))

\* What replaces the noise-free instruction ins of a noisy round.
Noisy(errs, ins) ==
    LET e == IF ins.g \in {"H", "R", "M", "CX", "CZ"} THEN Entry(errs[ins.g], ins.q) ELSE <<>>
        m == IF ins.g = "M" THEN Entry(errs.measurement, ins.q) ELSE <<>>
    IN  (IF m = <<>> THEN <<>> ELSE <<Instr("ERROR", ins.q, m[1], "X")>>)
        \o <<ins>>
        \o (IF e = <<>> THEN <<>>
            ELSE <<Instr(IF Len(ins.q) = 2 THEN "E_PAULI2" ELSE "E_PAULI", ins.q, e[1], "")>>)

RECURSIVE Place(_, _, _, _, _, _)
\* k: results so far; prog: noise-free program.
Place(job, errs, prog, k, j, acc) ==
    IF j > Len(prog) THEN acc
    ELSE LET ins == prog[j]
             r == (k - Wall(job)) \div NS(job)     \* current block
             noisy == k >= Wall(job) /\ r \in 1..(job.rounds - 1)
             k2 == IF ins.g = "M" THEN k + Len(ins.q) ELSE k
             a1 == acc \o (IF noisy THEN Noisy(errs, ins) ELSE <<ins>>)
             a2 == IF ins.g = "M" /\ RoundAt(job, k2) # 0
                   THEN a1 \o Channels(errs, job.code.n, 0, <<>>) ELSE a1
         IN  Place(job, errs, prog, k2, j + 1, a2)

\* Two programs are the same up to the order of independent instructions.
SetOf(s) == {s[i] : i \in DOMAIN s}
View(prog, q) == SelectSeq(prog, LAMBDA ins : q \in SetOf(ins.q))
Kind(prog, g) == SelectSeq(prog, LAMBDA ins : ins.g = g)
QubitsOf(prog) == UNION {SetOf(prog[j].q) : j \in DOMAIN prog}
SameProgram(p1, p2) ==
    /\ QubitsOf(p1) = QubitsOf(p2)
    /\ \A q \in QubitsOf(p1) : View(p1, q) = View(p2, q)
    /\ Kind(p1, "M") = Kind(p2, "M")
    /\ Kind(p1, "E_ERASE") = Kind(p2, "E_ERASE")
=============================================================================
