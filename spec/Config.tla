------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations of experiments as documents.                             *)
(*                                                                         *)
(* A scalar is a text: "s:abc" for the string abc, "3" for the integer,     *)
(* "0.5" for the number, "true" and "false".  A document is a record that    *)
(* holds some of the sections general, code, device, circuit, errors and     *)
(* decoder.  Reading a document gives an effective configuration, in which   *)
(* every attribute has a value, or it is refused.                           *)
(*                                                                         *)
(* fs describes the files: fs.exist, the paths of existing files, and        *)
(* fs.nodir, the paths in directories that do not exist.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Positive == {ToString(n) : n \in 1..3000} \cup {"1000000", "1000001", "1231245"}
MostShots == 1000000
TooMany == {"1000001", "1231245"}
Bool == {"true", "false"}

Has(d, k) == k \in DOMAIN d
Get(d, k, def) == IF Has(d, k) THEN d[k] ELSE def
Yes(c) == [ok |-> TRUE, c |-> c]
No == [ok |-> FALSE, c |-> <<>>]

(* --- code ----------------------------------------------------------------- *)
Sized == {"s:RotatedPlanarCode", "s:PlanarCode", "s:ToricCode", "s:RepetitionCode"}
Unsized == {"s:FiveQubitCode", "s:ShorCode"}
Code(d) ==
    LET name == Get(d, "name", "")
        size == Get(d, "size", "-1")
        rounds == Get(d, "rounds", "1")
    IN  IF /\ name \in Sized \cup Unsized
           /\ rounds \in Positive
           /\ name \in Sized => size \in Positive
        THEN Yes([name |-> name, rounds |-> rounds, size |-> IF name \in Sized THEN size ELSE "-1"])
        ELSE No

(* --- device, decoder, circuit, general -------------------------------------- *)
Device(d) ==
    LET name == Get(d, "name", "s:clifford")
        shots == Get(d, "shots", "1024")
    IN  IF name \in {"s:clifford", "s:stim"} /\ shots \in Positive
        THEN Yes([name |-> name, shots |-> shots]) ELSE No

Decoders == {"s:PyMatchingDecoder", "s:UnionFindDecoder", "s:UnionFindNoWeights", "s:FusionBlossomDecoder"}
Decoder(d) ==
    LET name == Get(d, "name", "s:PyMatchingDecoder")
    IN  IF name \in Decoders THEN Yes([name |-> name, weighted |-> Get(d, "weighted", "false")]) ELSE No

PathOk(fs, path, load) == path \notin fs.nodir /\ (load = "true" => path \in fs.exist)
Circuit(fs, d) ==
    LET r == [circuit_provided |-> Get(d, "circuit_provided", "false"),
              has_errors |-> Get(d, "has_errors", "false"),
              circuit_path |-> Get(d, "circuit_path", "s:circuit.txt")]
    IN  IF PathOk(fs, r.circuit_path, r.circuit_provided) THEN Yes(r) ELSE No

DefaultGeneral == [logical_op |-> "s:X", qec_property |-> <<"s:logical_error_rate">>, seed |-> "12345"]
General(d) == Yes(d)

(* --- errors ----------------------------------------------------------------- *)
\* One kind of qubit error: distribution d, parameters p, enabled e.
NoQ == [d |-> "s:", p |-> <<>>, e |-> "false"]
QError(x) ==
    LET d == Get(x, "distribution", "")
        p == Get(x, "params", <<>>)
    IN  IF \/ d = "s:user" /\ p = <<>>
           \/ d = "s:constant" /\ Len(p) = 1
           \/ d = "s:gaussian" /\ Len(p) = 2
        THEN Yes([d |-> d, p |-> p, e |-> Get(x, "enabled", "true")])
        ELSE IF d = "s:" /\ p = <<>> THEN Yes(NoQ) ELSE No

\* Errors of one gate: k tells whether one distribution is given ("str") or
\* a list of them; channels i and lists of parameters p belong to the list.
NoG == [k |-> "str", d |-> <<"s:">>, i |-> <<>>, p |-> <<>>, e |-> "false"]
Letter == {"I", "X", "Y", "Z"}
Channels == {"s:X", "s:Y", "s:Z"}
            \cup ({"s:" \o a \o b : a \in Letter, b \in Letter} \ {"s:II"})
GError(x) ==
    LET d == Get(x, "distribution", [k |-> "none", v |-> <<>>])
        i == Get(x, "induced_errors", <<>>)
        p == Get(x, "params", <<>>)
    IN  CASE d.k = "str" /\ i = <<>> /\ p = <<>> /\ d.v = <<"s:user">> ->
               Yes([k |-> "str", d |-> d.v, i |-> i, p |-> p, e |-> Get(x, "enabled", "true")])
          [] \/ d.k = "str" /\ i = <<>> /\ p = <<>> /\ d.v = <<"s:">>
             \/ d.k = "list" /\ d.v = <<>> /\ i = <<>> /\ p = <<>> -> Yes(NoG)
          [] /\ d.k = "list"
             /\ Len(d.v) = Len(i) /\ Len(i) = Len(p)
             /\ \A k \in DOMAIN i : /\ i[k] \in Channels
                                    /\ \/ d.v[k] = "s:constant" /\ Len(p[k]) = 1
                                       \/ d.v[k] = "s:gaussian" /\ Len(p[k]) = 2 ->
               Yes([k |-> "list", d |-> d.v, i |-> i, p |-> p, e |-> Get(x, "enabled", "true")])
          [] OTHER -> No

QLabels == {"X", "Y", "Z", "erasure", "measurement", "fabrication"}
GLabels == {"CZ", "CX", "H", "R", "M", "fabrication"}

\* A section of errors: where the data is, whether it is used, the kinds.
Section(fs, d, labels, path, sample, Entry(_), none) ==
    LET file == Get(d, "data_path", path)
        load == IF Has(d, "load_file") THEN d.load_file
                ELSE IF Has(d, "data_path") THEN "true" ELSE "false"
        given == {x \in labels : Has(d, x)}
    IN  IF PathOk(fs, file, load) /\ \A x \in given : Entry(d[x]).ok
        THEN Yes([data_path |-> file, load_file |-> load, sample |-> Get(d, "sample", sample),
                  kinds |-> [x \in labels |-> IF x \in given THEN Entry(d[x]).c ELSE none]])
        ELSE No
QErrors(fs, d) == Section(fs, d, QLabels, "s:qubit_errors.csv", "true", QError, NoQ)
GErrors(fs, d) == Section(fs, d, GLabels, "s:gate_errors.csv", "false", GError, NoG)

(* --- the whole document ------------------------------------------------------- *)
Sec(d, k) == Get(d, k, <<>>)
Read(fs, d) ==
    LET co == Code(Sec(d, "code"))
        de == Device(Sec(d, "device"))
        dc == Decoder(Sec(d, "decoder"))
        ci == Circuit(fs, Sec(d, "circuit"))
        q == QErrors(fs, Sec(Sec(d, "errors"), "qubit_errors"))
        g == GErrors(fs, Sec(Sec(d, "errors"), "gate_errors"))
    IN  IF co.ok /\ de.ok /\ dc.ok /\ ci.ok /\ q.ok /\ g.ok
        THEN Yes([code |-> co.c, device |-> de.c, decoder |-> dc.c, circuit |-> ci.c,
                  qubit |-> q.c, gate |-> g.c,
                  general |-> IF Has(d, "general") THEN d.general ELSE DefaultGeneral])
        ELSE No

\* Documents in files have to follow the schema as well.
Schema(d) ==
    /\ Has(d, "code") /\ Has(d, "errors")
    /\ Get(d.code, "name", "") \in Sized \cup Unsized
    /\ Get(d.code, "rounds", "") \in Positive
    /\ Get(d.code, "size", "1") \in Positive
    /\ LET v == Sec(d, "device")
       IN  /\ Get(v, "name", "s:stim") \in {"s:clifford", "s:stim"}
           /\ Get(v, "shots", "1") \in Positive \ TooMany
    /\ Has(d, "general") =>
         /\ {"logical_op", "qec_property", "seed"} \subseteq DOMAIN d.general
         /\ d.general.logical_op \in {"s:X", "s:Z"}
         /\ \A k \in DOMAIN d.general.qec_property :
              d.general.qec_property[k] \in {"s:logical_error_rate", "s:threshold"}
    /\ LET v == Sec(d, "circuit")
       IN  Get(v, "circuit_provided", "true") \in Bool /\ Get(v, "has_errors", "true") \in Bool
    /\ LET v == Sec(d, "decoder")
       IN  Get(v, "name", "s:UnionFindDecoder") \in Decoders /\ Get(v, "weighted", "true") \in Bool

(* --- writing and changing ------------------------------------------------------- *)
QDoc(e) == [distribution |-> e.d, params |-> e.p, enabled |-> e.e]
GDoc(e) == [distribution |-> [k |-> e.k, v |-> e.d], induced_errors |-> e.i, params |-> e.p,
            enabled |-> e.e]
SecDoc(s, Entry(_)) ==
    [x \in {"data_path", "load_file", "sample"} \cup DOMAIN s.kinds |->
       IF x \in DOMAIN s.kinds THEN Entry(s.kinds[x]) ELSE s[x]]
CodeDoc(c) == IF c.size = "-1" THEN [name |-> c.name, rounds |-> c.rounds] ELSE c
Write(c) == [code |-> CodeDoc(c.code), device |-> c.device, decoder |-> c.decoder,
             circuit |-> c.circuit, general |-> c.general,
             errors |-> [qubit_errors |-> SecDoc(c.qubit, QDoc),
                         gate_errors |-> SecDoc(c.gate, GDoc)]]

\* The document d with the attributes of kv in place of its own.
Merged(d, kv) == [x \in DOMAIN d |-> IF x \in DOMAIN kv THEN kv[x] ELSE d[x]]

\* Attributes of one part changed.  Parts are sections or kinds of errors.
Change(fs, c, part, label, kv) ==
    LET r == CASE part = "code" -> Code(Merged(c.code, kv))
               [] part = "device" -> Device(Merged(c.device, kv))
               [] part = "decoder" -> Decoder(Merged(c.decoder, kv))
               [] part = "circuit" -> Circuit(fs, Merged(c.circuit, kv))
               [] part = "general" -> Yes(Merged(c.general, kv))
               [] part = "qubit" /\ label = "" -> QErrors(fs, Merged(SecDoc(c.qubit, QDoc), kv))
               [] part = "gate" /\ label = "" -> GErrors(fs, Merged(SecDoc(c.gate, GDoc), kv))
               [] part = "qubit" -> QError(Merged(QDoc(c.qubit.kinds[label]), kv))
               [] part = "gate" -> GError(Merged(GDoc(c.gate.kinds[label]), kv))
    IN  IF ~r.ok THEN No
        ELSE IF label = "" THEN Yes([c EXCEPT ![part] = r.c])
        ELSE Yes([c EXCEPT ![part].kinds[label] = r.c])

\* A part replaced by a new one read from a document.
Replace(fs, c, part, d) ==
    LET r == CASE part = "code" -> Code(d)
               [] part = "device" -> Device(d)
               [] part = "decoder" -> Decoder(d)
               [] part = "circuit" -> Circuit(fs, d)
               [] part = "qubit" -> QErrors(fs, d)
               [] part = "gate" -> GErrors(fs, d)
    IN  IF r.ok THEN Yes([c EXCEPT ![part] = r.c]) ELSE No

(* --- what is simulated ------------------------------------------------------------ *)
Live(s, none) == {x \in DOMAIN s.kinds : s.kinds[x].e = "true" /\ s.kinds[x] # none}
SimQ(s) == {<<x, s.kinds[x].d, s.kinds[x].p>> : x \in Live(s, NoQ)}
SimG(s) == {<<x, s.kinds[x].k, s.kinds[x].d, s.kinds[x].i, s.kinds[x].p>> : x \in Live(s, NoG)}
=============================================================================
