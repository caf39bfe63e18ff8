------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* Drawings of code lattices.  A picture is a set of named marks at points, *)
(* a set of named segments between points, and marks for Pauli frames       *)
(* beside the data qubits they act on.                                      *)
(***************************************************************************)
EXTENDS Lattice

StabName == [U |-> "Stabilizer", A |-> "A stabilizer", B |-> "B stabilizer"]
Toggled == [U |-> "Toggled stabilizer", A |-> "Toggled A stabilizer", B |-> "Toggled B stabilizer"]
PauliName == <<"Pauli X", "Pauli Y", "Pauli Z">>
Ext(l, v) == IndexIn(l.data \o l.stabs \o l.logs, v) - 1

\* syn: the stabilizers (numbers from 0) whose syndrome is set.
DataMarks(l) ==
    {[name |-> "Data qubit", at |-> l.data[i], own |-> i - 1, ext |-> Ext(l, l.data[i])] : i \in DOMAIN l.data}
StabMarks(l, syn) ==
    {[name |-> IF (i - 1) \in syn THEN Toggled[l.info[l.stabs[i]]] ELSE StabName[l.info[l.stabs[i]]],
      at |-> l.stabs[i], own |-> i - 1, ext |-> Ext(l, l.stabs[i])] : i \in DOMAIN l.stabs}
LogMarks(l) ==
    {[name |-> "Logical operator", at |-> l.logs[i], own |-> i - 1, ext |-> Ext(l, l.logs[i])] : i \in DOMAIN l.logs}
Segments(l) == {[name |-> PauliName[e[3]], ends |-> {e[1], e[2]}] : e \in l.edges}
\* The frame marks of errors and corrections (sets of data qubits).
FrameMarks(l, ex, ez, cx, cz, only) ==
    LET at(name, S) == {[name |-> name, at |-> l.data[q + 1], own |-> q] : q \in S}
        keep(p) == only \in {"", p}
    IN  (IF keep("X") THEN at("X error", ex) \cup at("X correction", cx) ELSE {})
        \cup (IF keep("Z") THEN at("Z error", ez) \cup at("Z correction", cz) ELSE {})

\* A drawing shows the whole code: its lattice can be read off the picture.
ReadOff(marks, segs) ==
    LET names(N) == {m \in marks : m.name \in N}
        list(N) == LET S == names(N) IN [i \in 1..Cardinality(S) |-> (CHOOSE m \in S : m.own = i - 1).at]
        stabs == {StabName[g] : g \in {"U", "A", "B"}} \cup {Toggled[g] : g \in {"U", "A", "B"}}
        ops == {m.at : m \in names(stabs \cup {"Logical operator"})}
    IN  [data |-> list({"Data qubit"}), stabs |-> list(stabs), logs |-> list({"Logical operator"}),
         edges |-> {<<CHOOSE p \in s.ends : p \in ops, CHOOSE p \in s.ends : p \notin ops,
                      CHOOSE f \in 1..3 : PauliName[f] = s.name>> : s \in segs},
         syn |-> {m.own : m \in names({Toggled[g] : g \in {"U", "A", "B"}})}]
=============================================================================
