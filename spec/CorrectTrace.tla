---------------------------- MODULE CorrectTrace ----------------------------
(* Recorded error correction: errors of known patterns (given to the decoders *)
(* directly, or put into the circuit with certainty), the decoders'           *)
(* corrections and the verdicts on them.                                      *)
EXTENDS SynGraph, Json, IOUtils, TLC
VARIABLES c, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
SetOf(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Code == [n |-> CS.n, stabs |-> [i \in DOMAIN CS.stabs |-> Row(CS.stabs[i])], logs |-> [i \in DOMAIN CS.logs |-> Row(CS.logs[i])]]

\* The Pauli error of a round: a sequence of <<qubit, letter>>.
ErrOf(es) == PauliOp({es[i][1] : i \in {j \in DOMAIN es : es[j][2] \in {1, 2}}},
                     {es[i][1] : i \in {j \in DOMAIN es : es[j][2] \in {2, 3}}}, {})
RECURSIVE Total(_, _)
Total(e, r) == IF r = 0 THEN Identity
               ELSE LET a == Total(e, r - 1)  b == ErrOf(e[r]) IN PauliOp(Xor(a.x, b.x), Xor(a.z, b.z), {})
\* Stabilizers (from 1) that change in round r (from 1), by data errors and wrong results.
SynAt(code, e, m, r) ==
    LET wrong(t) == {m[i][2] + 1 : i \in {j \in DOMAIN m : m[j][1] + 1 = t}}
    IN  Xor(Syndrome(code, ErrOf(e[r])), Xor(wrong(r), wrong(r - 1)))
BitsAt(s) == {i \in DOMAIN s : s[i] = 1}

(* Errors outside the erasure, wrong results included; the erasure.          *)
Outside(e, m, era) == Len(m) + FoldLeft(LAMBDA a, b : a + b, 0, [r \in DOMAIN e |-> Cardinality({i \in DOMAIN e[r] : e[r][i][1] \notin SetOf(era[r])})])
ErasedSites(era) == UNION {{<<r, q>> : q \in SetOf(era[r])} : r \in DOMAIN era}
(* Qubits with an error that has the same syndrome as another one, from which *)
(* it differs by a logical operator.                                          *)
Doubled(code, q) ==
    \E P \in {"X", "Z"} : LET a == OpOf(<<P, 0, q>>)  b == Syndrome(code, a) IN
        b # {} /\ \E f \in QubitEdges(code, 1) : Syndrome(code, OpOf(f)) = b /\ LogFlips(code, OpOf(f)) # LogFlips(code, a)
DoubledQubits(code) == {q \in 0..(code.n - 1) : Doubled(code, q)}

Undone(code, frame, total) ==
    LET rest == PauliOp(Xor(frame.x, total.x), Xor(frame.z, total.z), {})
    IN  Undetected(code, rest) /\ LogFlips(code, rest) = {}
Flips(code, sel, op) == [i \in DOMAIN sel |-> IF Anti(code.logs[sel[i] + 1], op) THEN 1 ELSE 0]

Answer(code, dbl, e, m, era, total, a) ==
    LET frame == Row(a.frame)
        s == Cardinality(ErasedSites(era))
        t == Outside(e, m, era)
        x == Cardinality({p \in ErasedSites(era) : p[2] \in dbl})
    IN  IF a.err # "" THEN IF a.err = "PanicException" /\ s > 0 /\ a.dec \in {"fb", "fbw"} THEN ""  \* C14
                           ELSE a.dec \o " fails: " \o a.err
        ELSE IF 2 * t + s >= CS.d \/ Undone(code, frame, total) THEN ""
        ELSE IF 2 * (t + x) + (s - x) >= CS.d THEN "erasure of an error mistaken for a logically different one"
        ELSE a.dec \o " does not correct the error"
FirstOf(msgs) == LET b == {i \in DOMAIN msgs : msgs[i] # ""} IN IF b = {} THEN "" ELSE msgs[MinOf(b)]
\* Known deviations must not hide others.
Known == "erasure of an error mistaken for a logically different one"
Worst(msgs) == LET b == {i \in DOMAIN msgs : msgs[i] # "" /\ msgs[i] # Known}
               IN  IF b # {} THEN msgs[MinOf(b)] ELSE FirstOf(msgs)

Item(code, dbl, it) ==
    LET total == Total(it.e, Len(it.e))
    IN  IF \E r \in DOMAIN it.e : BitsAt(it.syn[r]) # SynAt(code, it.e, it.m, r) THEN "recorded syndrome"
        ELSE Worst([k \in DOMAIN it.ans |->
                 LET a == it.ans[k] IN
                 IF a.err = "" /\ (a.ok = 1) # (it.toggle = Flips(code, it.sel, Row(a.frame))) THEN "verdict on the correction"
                 ELSE Answer(code, dbl, it.e, it.m, it.era, total, a)])
Patterns == LET code == Code  dbl == DoubledQubits(code) IN Worst([i \in DOMAIN CS.items |-> Item(code, dbl, CS.items[i])])

Run(code, dbl, r) ==
    LET total == Total(CS.e, Len(CS.e))
        sure == ErasedSites(CS.era) = {}
    IN  IF ~sure /\ \E t \in DOMAIN CS.era : {q - 1 : q \in BitsAt(r.era[t])} # SetOf(CS.era[t]) THEN "erasures of the run"
        ELSE IF sure /\ \E t \in DOMAIN CS.e : BitsAt(r.syn[t]) # SynAt(code, CS.e, CS.m, t) THEN "syndrome of the run"
        ELSE IF sure /\ r.toggle # Flips(code, CS.sel, total) THEN "logical values of the run"
        ELSE Worst([k \in DOMAIN r.ans |->
                 LET a == r.ans[k] IN
                 IF a.err = "" /\ (a.ok = 1) # (r.toggle = Flips(code, CS.sel, Row(a.frame))) THEN "verdict on the correction"
                 ELSE IF sure THEN Answer(code, dbl, CS.e, CS.m, CS.era, total, a)
                 ELSE IF a.err # "" THEN IF a.err = "PanicException" /\ a.dec \in {"fb", "fbw"} THEN "" ELSE a.dec \o " fails: " \o a.err
                 ELSE IF a.ok = 1 THEN "" ELSE a.dec \o " does not correct the error"])
Pipeline == LET code == Code  dbl == DoubledQubits(code) IN Worst([i \in DOMAIN CS.runs |-> Run(code, dbl, CS.runs[i])])

Verdict == LET code == Code IN
    FirstOf([i \in DOMAIN CS.items |->
        LET it == CS.items[i] IN
        IF (it.ok = 1) # (it.toggle = Flips(code, it.sel, Row(it.frame))) THEN "verdict on the correction"
        ELSE IF it.kept # 1 THEN "correction modified" ELSE ""])

Clause == CASE CS.kind = "patterns" -> Patterns [] CS.kind = "pipeline" -> Pipeline [] CS.kind = "verdict" -> Verdict
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ LET cl == Clause IN PrintT(ToJson([id |-> CS.id, bad |-> IF cl = "" THEN <<>> ELSE <<1, cl>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
