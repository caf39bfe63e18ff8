--------------------------- MODULE PauliOpsTrace ---------------------------
(* Recorded calls of the functions on Pauli operators against PauliText.      *)
EXTENDS PauliText, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE

SetOf(s) == {s[i] : i \in DOMAIN s}
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), IF r[3] = 1 THEN {0} ELSE {})
Ops(rows) == [i \in DOMAIN rows |-> Row(rows[i])]
Is(res, op, n) == res.n = n /\ Row(res.op) = op
Same(ns) == \A i \in DOMAIN ns : ns[i] = ns[1]

(* The known deviation: the sign of an intermediate product counts twice.    *)
RECURSIVE Twice(_, _)
Twice(ops, ph) ==
    IF Len(ops) = 2
    THEN LET e == (FullPhase(ops[1], ops[2]) + ph) % 4
             r == Mul(ops[1], ops[2])
         IN  <<PauliOp(r.x, r.z, IF e >= 2 THEN {0} ELSE {}), e>>
    ELSE LET t == Twice(Tail(ops), ph)
         IN  Twice(<<ops[1], t[1]>>, t[2])

MulCase ==
    LET ops == Ops(CS.ops)
        e == IF Len(ops) = 1 THEN ProdPhase(ops) ELSE (ProdPhase(ops) + CS.ip) % 4
        want == [ProdBody(ops) EXCEPT !.s = IF e >= 2 THEN {0} ELSE {}]
    IN  IF ~Same(CS.ns) THEN IF CS.err = "" THEN "factors of different size multiplied" ELSE ""
        ELSE IF CS.err # "" THEN "product refused: " \o CS.err
        ELSE IF Is(CS.res, want, CS.ns[1]) /\ CS.ph = e THEN ""
        ELSE IF ~(CS.res.n = CS.ns[1] /\ SameBody(Row(CS.res.op), want)) THEN "wrong product"
        ELSE IF Len(ops) > 2 /\ Twice(ops, CS.ip) = <<Row(CS.res.op), CS.ph>>
             THEN "sign of an intermediate product counted twice"
        ELSE "wrong phase of a product"

Half(s) == SubSeq(s, Len(s) \div 2 + 1, Len(s))
CommCase ==
    LET a == IF CS.ign THEN Half(Ops(CS.a)) ELSE Ops(CS.a)
        b == IF CS.ign THEN Half(Ops(CS.b)) ELSE Ops(CS.b)
        na == Len(a)
        nb == Len(b)
        shape == SelectSeq(<<na, nb>>, LAMBDA k : k # 1)
        want == [k \in 1..(na * nb) |-> IF Anti(a[((k - 1) \div nb) + 1], b[((k - 1) % nb) + 1])
                                        THEN 1 ELSE 0]
    IN  IF CS.err # "" THEN "commutator refused: " \o CS.err
        ELSE IF CS.shape # shape THEN "shape of the commutators"
        ELSE IF CS.data # want THEN "wrong commutator" ELSE ""

ParseCase ==
    LET r == Parse(CS.text, CS.qubits) IN
    IF r.ok THEN IF CS.err # "" THEN "valid text refused: " \o CS.err
                 ELSE IF Is(CS.res, r.op, r.n) THEN "" ELSE "text misread"
    ELSE IF CS.err = "" THEN "invalid text accepted" ELSE ""

ShowCase ==
    LET p == Row(CS.op) IN
    IF CS.longerr # "" \/ CS.shorterr # "" THEN "operator cannot be shown"
    ELSE IF CS.long # Long(p, CS.n) THEN "wrong canonical text"
    ELSE IF CS.short # Short(p, CS.n) THEN "wrong short text"
    ELSE IF ~Is(CS.longback, p, CS.n) THEN "canonical text cannot be read back"
    ELSE IF ~Is(CS.shortback, p, CS.n) THEN "short text cannot be read back" ELSE ""

DictCase ==
    LET p == Row(CS.op)
        want == {<<q, LetterAt(p, q)>> : q \in Support(p)}
    IN  IF CS.err # "" THEN "no dictionary: " \o CS.err
        ELSE IF SetOf(CS.items) # want \/ Len(CS.items) # Cardinality(want) THEN "wrong dictionary"
        ELSE IF CS.qubits # -1 /\ CS.qubits < CS.least
             THEN IF CS.err2 = "" THEN "too few qubits accepted" ELSE ""
        ELSE IF CS.err2 # "" THEN "dictionary refused: " \o CS.err2
        ELSE IF Is(CS.res, [p EXCEPT !.s = {}], IF CS.qubits = -1 THEN CS.least ELSE CS.qubits) THEN ""
        ELSE "dictionary misread"

PadCase == IF CS.err # "" THEN "padding refused: " \o CS.err
           ELSE IF Is(CS.res, Row(CS.op), IF CS.total > CS.n THEN CS.total ELSE CS.n) THEN ""
           ELSE "wrong padding"

CountCase ==
    LET w(i) == IF CS.ident THEN CS.ns[i] ELSE Cardinality(Support(Row(CS.ops[i])))
        want == IF CS.ident /\ CS.form # "list" THEN <<CS.ns[1]>> ELSE [i \in DOMAIN CS.ops |-> w(i)]
    IN  IF CS.err # "" THEN "qubits not counted: " \o CS.err
        ELSE IF CS.res = want THEN "" ELSE "wrong number of qubits"

SingleCase ==
    LET sgn == CS.letter[1]
        l == CS.letter[Len(CS.letter)]
        ok == l \in {"X", "Y", "Z"} /\ CS.q >= 0 /\ CS.q < CS.n
    IN  IF ~ok THEN IF CS.err = "" THEN "invalid single-qubit operator accepted" ELSE ""
        ELSE IF CS.err # "" THEN "single-qubit operator refused: " \o CS.err
        ELSE IF Is(CS.res, [LetterOp(l, CS.q) EXCEPT !.s = IF sgn = "-" THEN {0} ELSE {}], CS.n)
             THEN "" ELSE "wrong single-qubit operator"

TensorCase ==
    IF CS.err # "" THEN "tensor product refused: " \o CS.err
    ELSE IF Is(CS.res, Beside(Ops(CS.ops), CS.ns), FoldLeft(LAMBDA a, b : a + b, 0, CS.ns)) THEN ""
    ELSE "wrong tensor product"

ApplyCase ==
    LET ops == Ops(CS.ops)
        rows == Ops(CS.rows)
        ok == CS.on = CS.n /\ (CS.two => Len(ops) = Len(rows))
    IN  IF ~ok THEN IF CS.err = "" THEN "operators that do not fit applied" ELSE ""
        ELSE IF CS.err # "" THEN "operator cannot be applied: " \o CS.err
        ELSE IF Ops(CS.res) = [i \in DOMAIN rows |->
                                 Product(IF CS.two THEN ops[i] ELSE ops[1], rows[i])] THEN ""
        ELSE "operator applied wrongly"

(* Calls described by the shapes of their arguments; a text has none.        *)
Op1(a) == Len(a) = 1 /\ a[1] % 2 = 1
State2(a) == Len(a) = 2 /\ a[2] % 2 = 1 /\ a[1] = a[2] - 1
Table2(a) == Len(a) = 2 /\ a[2] % 2 = 1
Fits ==
    LET a == CS.args IN
    CASE CS.fn = "multiply" -> a # <<>> /\ (\A i \in DOMAIN a : Op1(a[i]) /\ a[i] = a[1])
      [] CS.fn = "tensor_product" ->
            a # <<>> /\ ((\A i \in DOMAIN a : Op1(a[i])) \/ (\A i \in DOMAIN a : State2(a[i])))
      [] CS.fn = "apply_operator" ->
            Table2(a[2]) /\ (IF Len(a[1]) = 1 THEN a[1][1] = a[2][2] ELSE a[1] = a[2])
      [] CS.fn = "pauli_to_string" -> Op1(a[1])
      [] CS.fn = "state_to_stabiliser_string" -> State2(a[1])
      [] CS.fn = "unpack_tableau" -> Op1(a[1]) \/ Table2(a[1])
ShapedCase ==
    IF Fits THEN IF CS.err = "" THEN "" ELSE CS.fn \o ": fitting arguments refused: " \o CS.err
    ELSE IF CS.err = "" THEN CS.fn \o ": arguments of a wrong shape accepted" ELSE ""

Why == CASE CS.kind = "shaped" -> ShapedCase
         [] CS.kind = "mul" -> MulCase [] CS.kind = "comm" -> CommCase
         [] CS.kind = "parse" -> ParseCase [] CS.kind = "show" -> ShowCase
         [] CS.kind = "dict" -> DictCase [] CS.kind = "pad" -> PadCase
         [] CS.kind = "count" -> CountCase [] CS.kind = "single" -> SingleCase
         [] CS.kind = "tensor" -> TensorCase [] CS.kind = "apply" -> ApplyCase
Verdict == IF "same" \in DOMAIN CS /\ ~CS.same THEN "arguments modified" ELSE Why

Report == PrintT(ToJson([id |-> CS.id, bad |-> IF Verdict = "" THEN <<>> ELSE <<1, Verdict>>]))
Next == ~done /\ Report /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
