---------------------------- MODULE MCErrorData ----------------------------
(* All histories of a description of one data and one stabilizer qubit.      *)
EXTENDS ErrorData
CONSTANT MaxLen
VARIABLES s, n, last
vars == <<s, n, last>>
D == {0}
S == {1}
Vs == {NA, 0, 1}
Names == {"X", "measurement"}
Frames(ids, cols) == [ids -> [t : {"data", "stab"}, v : [cols -> Vs]]]
RowSet == {[g |-> "H", q |-> <<1>>, c |-> <<"x">>, p |-> <<1>>],
           [g |-> "H", q |-> <<1, 1>>, c |-> <<"z", "x">>, p |-> <<2, 3>>],
           [g |-> "CX", q |-> <<1, 0>>, c |-> <<"xi">>, p |-> <<1>>],
           [g |-> "CX", q |-> <<1, 0>>, c |-> <<"x">>, p |-> <<1>>]}
Init == /\ n = 0 /\ last = <<>>
        /\ s \in {Empty, Overwrite(Empty, {"X"}, Fresh(D, S, {"X"}, LAMBDA i, c : 1))}
Do(op, t) == s' = t /\ last' = op /\ n' = n + 1
Next ==
    /\ n < MaxLen
    /\ \/ \E name \in Names, q \in {<<0>>, <<1>>, <<0, 1>>} :
             /\ AddColumnOk(s, name) /\ DOMAIN s.tab # {}
             /\ Do(<<"add", name>>, AddColumn(s, q, name, [k \in DOMAIN q |-> k]))
       \/ \E name \in Names, q \in {<<0>>, <<1, 0>>} :
             /\ UpdateColumnOk(s, "list", q, name, q)
             /\ Do(<<"update", name, q>>, UpdateColumn(s, q, name, [k \in DOMAIN q |-> 5]))
       \/ \E r \in RowSet : Do(<<"gate", r>>, AddGate(s, r))
       \/ \E cols \in {{"X"}, {"measurement"}}, ids \in {{0}, {0, 1}} : \E f \in Frames(ids, cols) :
             \/ Do(<<"merge", cols, f>>, Merge(s, cols, f))
             \/ Do(<<"overwrite", cols, f>>, Overwrite(s, cols, f))
       \/ \E r \in RowSet : \/ Do(<<"rows">>, AddRows(s, <<r>>))
                            \/ Do(<<"rows">>, SetRows(s, <<r>>))
       \/ \E e \in SUBSET s.cols : Do(<<"enable">>, [s EXCEPT !.en = e])
       \/ \E e \in SUBSET {"H", "CX"} : Do(<<"enableg">>, [s EXCEPT !.eg = e])
       \/ Do(<<"load">>, Loaded(s))
Spec == Init /\ [][Next]_vars

TypeOK == /\ s.en \subseteq s.cols
          /\ \A i \in DOMAIN s.tab : DOMAIN s.tab[i].v = s.cols
\* Only what is enabled is simulated, and nothing that is missing.
OnlyEnabled == /\ \A x \in QubitDict(s) : x[4] # NA /\ (x[1] = "pauli" => "X" \in s.en)
                                          /\ (x[1] = "measurement" => "measurement" \in s.en)
               /\ \A x \in GateDict(s) : x[1] \in s.eg
\* One probability for each error at each place.
Unique == /\ \A x, y \in QubitDict(s) : <<x[1], x[2], x[3]>> = <<y[1], y[2], y[3]>> => x = y
          /\ \A x, y \in GateDict(s) : SubSeq(x, 1, 4) = SubSeq(y, 1, 4) => x = y
\* Data qubits suffer Pauli errors and erasures, stabilizer qubits measurement errors.
Sides == \A x \in QubitDict(s) : (s.tab[x[2]].t = "data") <=> (x[1] # "measurement")
\* Files lose nothing but which errors are switched off.
Files == LET l == Loaded(s) IN
         /\ [s EXCEPT !.en = {}, !.eg = {}] = [l EXCEPT !.en = {}, !.eg = {}]
         /\ QubitDict(s) \subseteq QubitDict(l)
         /\ Loaded(l) = l
\* The last added row counts, as long as its gate is enabled.
LastGate == last # <<>> /\ last[1] = "gate" =>
            {<<x[4], x[5]>> : x \in {x \in GateDict(s) : x[1] = last[2].g}} =
                {<<last[2].c[j], last[2].p[j]>> : j \in DOMAIN last[2].c}
\* Taking the same values over again changes nothing.
Idempotent == last # <<>> /\ last[1] = "merge" =>
              /\ Merge(s, last[2], last[3]) = s
              /\ \A i \in DOMAIN last[3] : \A c \in last[2] :
                    last[3][i].v[c] # NA => s.tab[i].v[c] = last[3][i].v[c]
=============================================================================
