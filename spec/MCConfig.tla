------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Small documents, read, changed and written in every way.                *)
(***************************************************************************)
EXTENDS Config

CONSTANTS MaxLen

FS == [exist |-> {"s:a.csv", "s:c.txt"}, nodir |-> {"s:no/a.csv"}]

\* Records that hold any of the keys, with values of the given sets.
RECURSIVE Docs(_, _)
Docs(keys, vals) ==
    IF keys = {} THEN {<<>>}
    ELSE LET k == CHOOSE x \in keys : TRUE
             rest == Docs(keys \ {k}, vals)
         IN  rest \cup {(k :> v) @@ r : v \in vals[k], r \in rest}

CodeDocs == Docs({"name", "size", "rounds"},
    [name |-> {"s:PlanarCode", "s:FiveQubitCode", "s:ColorCode"}, size |-> {"3", "0", "-1", "2.5"},
     rounds |-> {"2", "0"}])
DeviceDocs == Docs({"name", "shots"}, [name |-> {"s:stim", "s:qpu"}, shots |-> {"10", "1000001", "-3"}])
DecoderDocs == Docs({"name", "weighted"}, [name |-> {"s:UnionFindDecoder", "s:None"}, weighted |-> Bool])
CircuitDocs == Docs({"circuit_provided", "circuit_path"},
    [circuit_provided |-> Bool, circuit_path |-> {"s:c.txt", "s:d.txt", "s:no/a.csv"}])
QEntries == Docs({"distribution", "params", "enabled"},
    [distribution |-> {"s:constant", "s:gaussian", "s:user", "s:"},
     params |-> {<<>>, <<"0.1">>, <<"0.1", "0.2">>}, enabled |-> Bool])
GEntries == Docs({"distribution", "induced_errors", "params"},
    [distribution |-> {[k |-> "str", v |-> <<"s:user">>], [k |-> "list", v |-> <<"s:constant">>],
                       [k |-> "list", v |-> <<"s:gaussian", "s:constant">>], [k |-> "list", v |-> <<>>]},
     induced_errors |-> {<<>>, <<"s:X">>, <<"s:XX", "s:IZ">>, <<"s:II", "s:X">>},
     params |-> {<<>>, <<<<"0.1">>>>, <<<<"0.1", "0.2">>, <<"0.3">>>>}])
QDocs == Docs({"data_path", "load_file", "X"},
    [data_path |-> {"s:a.csv", "s:b.csv", "s:no/a.csv"}, load_file |-> Bool,
     X |-> {[distribution |-> "s:constant", params |-> <<"0.1">>], [distribution |-> "s:user"]}])
Base == [code |-> [name |-> "s:ShorCode", rounds |-> "1"], errors |-> <<>>]

VARIABLES cfg, last, len
vars == <<cfg, last, len>>

Start(d) == /\ Read(FS, d).ok
            /\ cfg = Read(FS, d).c
            /\ last = <<"read">>
            /\ len = 0
Init == \/ \E x \in CodeDocs : Start([code |-> x])
        \/ \E x \in DeviceDocs : Start(("device" :> x) @@ Base)
        \/ \E x \in DecoderDocs : Start(("decoder" :> x) @@ Base)
        \/ \E x \in CircuitDocs : Start(("circuit" :> x) @@ Base)
        \/ \E x \in QEntries : Start([Base EXCEPT !.errors = [qubit_errors |-> [Z |-> x]]])
        \/ \E x \in GEntries : Start([Base EXCEPT !.errors = [gate_errors |-> [H |-> x]]])
        \/ \E x \in QDocs : Start([Base EXCEPT !.errors = [qubit_errors |-> x]])

Set(part, label, kv) ==
    LET r == Change(FS, cfg, part, label, kv)
    IN  /\ len < MaxLen /\ len' = len + 1
        /\ cfg' = IF r.ok THEN r.c ELSE cfg
        /\ last' = <<"set", part, label, r.ok>>
Next == \/ \E x \in CodeDocs : Set("code", "", x)
        \/ \E x \in DeviceDocs : Set("device", "", x)
        \/ \E x \in DecoderDocs : Set("decoder", "", x)
        \/ \E x \in CircuitDocs : Set("circuit", "", x)
        \/ \E x \in QEntries : Set("qubit", "Z", x)
        \/ \E x \in GEntries : Set("gate", "H", x)
        \/ \E x \in QDocs : Set("qubit", "", x)
Spec == Init /\ [][Next]_vars

(* --- properties --------------------------------------------------------------- *)
TypeOK ==
    /\ cfg.code.name \in Sized \cup Unsized /\ cfg.code.rounds \in Positive
    /\ (cfg.code.size = "-1") = (cfg.code.name \in Unsized)
    /\ cfg.device.shots \in Positive
    /\ \A x \in QLabels : QError(QDoc(cfg.qubit.kinds[x])).ok
    /\ \A x \in GLabels : GError(GDoc(cfg.gate.kinds[x])).ok
    /\ PathOk(FS, cfg.qubit.data_path, cfg.qubit.load_file)
    /\ PathOk(FS, cfg.circuit.circuit_path, cfg.circuit.circuit_provided)

\* What is written can be read and is the same configuration.
RoundTrip == Read(FS, Write(cfg)) = Yes(cfg)
\* What is written follows the schema, except for more shots than files may ask for.
Written == Schema(Write(cfg)) <=> cfg.device.shots \notin TooMany
\* Changing nothing changes nothing; setting what is there is no change.
NoChange == \A part \in {"code", "device", "decoder", "circuit", "qubit", "gate"} :
                Change(FS, cfg, part, "", <<>>) = Yes(cfg)
\* Replacing one part leaves the others alone.
Apart == [][\A part \in {"code", "device", "decoder", "circuit", "qubit", "gate"} :
              last'[1] = "set" /\ part # last'[2] => cfg'[part] = cfg[part]]_vars
\* Nothing but what is declared and enabled is simulated.
Simulated == /\ \A t \in SimQ(cfg.qubit) : cfg.qubit.kinds[t[1]].e = "true" /\ t[2] # "s:"
             /\ \A t \in SimG(cfg.gate) : t[2] = "str" => t[3] = <<"s:user">>
View == <<cfg, len>>
=============================================================================
