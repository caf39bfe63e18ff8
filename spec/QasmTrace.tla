------------------------------ MODULE QasmTrace ------------------------------
(* Recorded exports: the parsed OpenQASM output against the circuit.          *)
EXTENDS Qasm, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
Clause ==
    IF ~AllSupported(CS.prog) /\ ~CS.ignore
    THEN IF CS.err = "" THEN "unsupported instruction exported" ELSE ""
    ELSE IF CS.err # "" THEN "export failed: " \o CS.err
    ELSE IF CS.malformed # "" THEN "not OpenQASM 2: " \o CS.malformed
    ELSE IF CS.qreg # Width(CS.prog) THEN "quantum register size"
    ELSE IF CS.creg # Bits(CS.prog) THEN "classical register size"
    ELSE IF /\ ~SameTrace(Unroll(CS.prog, 0), CS.atoms)
            /\ \A k \in DOMAIN CS.atoms : CS.atoms[k].op # "reset"
            /\ SameTrace(SelectSeq(Unroll(CS.prog, 0), LAMBDA a : a.op # "reset"), CS.atoms)
         THEN "resets missing, everything else exported"
    ELSE IF ~SameTrace(Unroll(CS.prog, 0), CS.atoms)
         THEN IF Len(CS.atoms) # Len(Unroll(CS.prog, 0)) THEN "number of operations" ELSE "operations"
    ELSE ""
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> IF Clause = "" THEN <<>> ELSE <<1, Clause>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
