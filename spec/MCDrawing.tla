----------------------------- MODULE MCDrawing ------------------------------
(* Lattices of one or two data qubits, stabilizers and logical operators on  *)
(* a small grid: the drawing shows all of the code.  One visualizer, many    *)
(* drawings: greyed or not, some of which fail, in any order, always from    *)
(* the same styles.                                                          *)
EXTENDS Drawing, FiniteSetsExt
CONSTANTS MaxEdges
VARIABLES l, syn, style, left

Grid == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
Seqs(k) == UNION {{s \in [1..j -> Grid] : \A a, b \in 1..j : a # b => s[a] # s[b]} : j \in 0..k}
Disjoint(a, b) == Elems(a) \cap Elems(b) = {}
Init == /\ \E d \in Seqs(2), s \in Seqs(2), o \in Seqs(1) :
             /\ Disjoint(d, s) /\ Disjoint(d, o) /\ Disjoint(s, o)
             /\ d # <<>> /\ d[1] = <<0, 0>>
             /\ \E g \in [Elems(s) \cup Elems(o) -> {"U", "B"}], m \in {j \in 0..MaxEdges : j <= 3 * Cardinality(Elems(s) \cup Elems(o)) * Len(d)} :
                \E es \in kSubset(m, (Elems(s) \cup Elems(o)) \X Elems(d) \X {1, 2, 3}) :
                    /\ l = [data |-> d, stabs |-> s, logs |-> o, edges |-> es, info |-> g]
                    /\ WellFormed(l)
        /\ syn \in SUBSET {i - 1 : i \in DOMAIN l.stabs}
        /\ style = "normal" /\ left = IF Len(l.stabs) = 0 THEN 3 ELSE 0
\* A drawing sets the style, draws (or fails), and restores the style.
Begin(grey) == style = "normal" /\ left > 0 /\ style' = (IF grey THEN "grey" ELSE "plain") /\ left' = left - 1
Finish == style # "normal" /\ style' = "normal" /\ UNCHANGED left
Next == (\E grey \in BOOLEAN : Begin(grey) \/ Finish) /\ UNCHANGED <<l, syn>>
Spec == Init /\ [][Next]_<<l, syn, style, left>> /\ WF_style(Finish)
Shows == LET r == ReadOff(DataMarks(l) \cup StabMarks(l, syn) \cup LogMarks(l), Segments(l))
         IN  /\ r.data = l.data /\ r.stabs = l.stabs /\ r.logs = l.logs
             /\ r.edges = l.edges /\ r.syn = syn
Restored == (style # "normal") ~> (style = "normal")
=============================================================================
