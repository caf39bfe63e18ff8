----------------------------- MODULE ErrorData -----------------------------
(***************************************************************************)
(* The description of physical errors as a document with a history.         *)
(*                                                                         *)
(* A description is a record                                               *)
(*   cols : the error columns of the qubit table                            *)
(*   tab  : qubit -> [t |-> its type, v |-> column -> value]                 *)
(*   en   : the qubit errors that are simulated                             *)
(*   rows : the sequence of gate errors [g, q, c, p] (gate, qubits, induced  *)
(*          channels, probabilities)                                        *)
(*   eg   : the gates whose errors are simulated                            *)
(* Values are integers (1e-9), NA is a missing value.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NA == -1
Available == 1000000001
AnyValue == -3                \* drawn at random: any probability
One == 1000000000

Paulis == {"X", "Y", "Z"}
Lower == [X |-> "x", Y |-> "y", Z |-> "z"]
Stab == {"stab", "ancilla"}
One1 == {"H", "R", "M"}
Two2 == {"CX", "CZ"}
Pauli2 == {"ix", "iy", "iz", "xi", "xx", "xy", "xz", "yi", "yx", "yy", "yz",
           "zi", "zx", "zy", "zz"}

Empty == [cols |-> {}, tab |-> <<>>, en |-> {}, rows |-> <<>>, eg |-> {}]
Gates(rows) == {rows[k].g : k \in DOMAIN rows}

(* --- building ---------------------------------------------------------- *)
\* The table of a lattice with data qubits D and stabilizer qubits S.
Fresh(D, S, cols, val(_, _)) ==
    [i \in D \cup S |-> [t |-> IF i \in D THEN "data" ELSE "stab",
                         v |-> [c \in cols |-> val(i, c)]]]

\* A table replaced by another one, all its errors simulated.
Overwrite(s, cols, tab) == [s EXCEPT !.cols = cols, !.tab = tab, !.en = cols]

\* Values given are taken over, missing values leave what is stored, qubits
\* and columns not yet there are appended.
Val(tab, i, c) == IF i \in DOMAIN tab /\ c \in DOMAIN tab[i].v THEN tab[i].v[c] ELSE NA
Merge(s, cols, tab) ==
    LET all == s.cols \cup cols
        ids == DOMAIN s.tab \cup DOMAIN tab
    IN  [s EXCEPT !.cols = all, !.en = all,
           !.tab = [i \in ids |->
              [t |-> IF i \in DOMAIN tab /\ (tab[i].t # "" \/ i \notin DOMAIN s.tab)
                      THEN tab[i].t ELSE s.tab[i].t,
               v |-> [c \in all |-> IF Val(tab, i, c) # NA THEN Val(tab, i, c)
                                    ELSE Val(s.tab, i, c)]]]]
AddRows(s, rows) == [s EXCEPT !.rows = @ \o rows, !.eg = Gates(s.rows \o rows)]
SetRows(s, rows) == [s EXCEPT !.rows = rows, !.eg = Gates(rows)]

\* Position of the last occurrence of i in the sequence q, 0 if there is none.
LastPos(q, i) == IF \E k \in DOMAIN q : q[k] = i
                 THEN CHOOSE k \in DOMAIN q : q[k] = i /\ \A j \in k+1..Len(q) : q[j] # i
                 ELSE 0

AddColumnOk(s, name) == name # "fabrication" /\ name \notin s.cols
AddColumn(s, q, name, p) ==
    [s EXCEPT !.cols = @ \cup {name}, !.en = @ \cup {name},
       !.tab = [i \in DOMAIN s.tab |->
          [t |-> s.tab[i].t,
           v |-> [c \in s.cols \cup {name} |->
                    IF c # name THEN s.tab[i].v[c]
                    ELSE IF LastPos(q, i) = 0 THEN 0 ELSE p[LastPos(q, i)]]]]]

UpdateColumnOk(s, form, q, name, p) ==
    /\ name # "fabrication" /\ name \in s.cols
    /\ form \in {"scalar", "list"}                 \* not one number and one list
    /\ Len(q) = Len(p)
UpdateColumn(s, q, name, p) ==
    [s EXCEPT !.tab = [i \in DOMAIN s.tab |->
        [s.tab[i] EXCEPT !.v = [c \in s.cols |->
            IF c = name /\ LastPos(q, i) # 0 THEN p[LastPos(q, i)] ELSE s.tab[i].v[c]]]]]

AddGate(s, row) == [s EXCEPT !.rows = Append(@, row), !.eg = @ \cup {row.g}]

\* What a file can hold: everything but what is switched off.
Loaded(s) == [s EXCEPT !.en = s.cols, !.eg = Gates(s.rows)]

(* --- what is simulated --------------------------------------------------- *)
QubitDict(s) ==
    {<<"pauli", i, Lower[c], s.tab[i].v[c]>> :
        <<i, c>> \in {x \in (DOMAIN s.tab) \X (s.en \cap Paulis) :
                        s.tab[x[1]].t = "data" /\ s.tab[x[1]].v[x[2]] # NA}}
    \cup {<<"erasure", i, "p", s.tab[i].v["erasure"]>> :
            i \in {i \in DOMAIN s.tab : /\ "erasure" \in s.en /\ s.tab[i].t = "data"
                                        /\ s.tab[i].v["erasure"] # NA}}
    \cup {<<"measurement", i, "p", s.tab[i].v["measurement"]>> :
            i \in {i \in DOMAIN s.tab : /\ "measurement" \in s.en /\ s.tab[i].t \in Stab
                                        /\ s.tab[i].v["measurement"] # NA}}

\* The places a row is about: qubits, or pairs of control and target.
Places(r) == IF r.g \in One1 THEN {<<r.q[k], -1>> : k \in DOMAIN r.q}
             ELSE IF r.g \in Two2 THEN {<<r.q[2*k - 1], r.q[2*k]>> : k \in 1..(Len(r.q) \div 2)}
             ELSE {}
Simulated(s) == {k \in DOMAIN s.rows : s.rows[k].g \in s.eg}
\* Of two rows about the same gate on the same qubits the last one counts.
Valid(s, k, pl) == \A j \in Simulated(s) :
                       j > k => ~(s.rows[j].g = s.rows[k].g /\ pl \in Places(s.rows[j]))
GateDict(s) ==
    UNION {UNION {{<<s.rows[k].g, pl[1], pl[2], s.rows[k].c[j], s.rows[k].p[j]>> :
                      j \in {j \in DOMAIN s.rows[k].c :
                               j <= Len(s.rows[k].p) /\ LastPos(s.rows[k].c, s.rows[k].c[j]) = j}} :
                   pl \in {pl \in Places(s.rows[k]) : Valid(s, k, pl)}} : k \in Simulated(s)}
\* Two-qubit gates need two-qubit channels.
GateDictOk(s) == \A k \in Simulated(s) : s.rows[k].g \in Two2 =>
                     \A j \in DOMAIN s.rows[k].c : s.rows[k].c[j] \notin {"x", "y", "z"}

(* --- does it describe errors of a given code? ------------------------------ *)
FitsCode(s, D, S) ==
    /\ \A x \in QubitDict(s) : x[2] \in (IF x[1] = "measurement" THEN S ELSE D)
    /\ \A x \in GateDict(s) :
         /\ x[2] \in S
         /\ x[1] \in Two2 => x[3] \in D /\ x[4] \in Pauli2
         /\ x[1] \in One1 => x[4] \in {"x", "y", "z"}
TypesFit(s, D, S) == \A i \in DOMAIN s.tab : /\ s.tab[i].t = "data" => i \in D
                                             /\ s.tab[i].t \in Stab => i \in S
=============================================================================
