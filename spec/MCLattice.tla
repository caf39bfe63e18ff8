------------------------------ MODULE MCLattice ------------------------------
(* Every way to edit a small code lattice.                                   *)
EXTENDS Lattice
CONSTANTS Factors, NData
VARIABLES l, sch, last
vars == <<l, sch, last>>
DPos == {<<0, 0>>, <<0, 1>>, <<3, 0>>}
Data == IF NData = 2 THEN {<<0, 0>>, <<0, 1>>} ELSE DPos
Stabs == {<<1, 0>>, <<1, 1>>}
Logs == {<<2, 0>>}
Order == <<<<-1, 0>>, <<-1, -1>>, <<-1, 1>>, <<1, 0>>, <<1, -1>>>>
Ops ==
    {[op |-> "add_data", pos |-> p] : p \in Data}
    \cup {[op |-> "add_stabgen", pos |-> p, tag |-> "U"] : p \in Stabs}
    \cup {[op |-> "add_logical", pos |-> p, tag |-> "X"] : p \in Logs}
    \cup {[op |-> "add_edge", v |-> v, d |-> d, f |-> f] :
            v \in Elems(l.stabs) \cup Elems(l.logs), d \in Elems(l.data), f \in Factors}
    \cup {[op |-> "remove_edge", v |-> e[1], d |-> e[2], f |-> e[3]] : e \in l.edges}
    \cup {[op |-> "remove_vertex", v |-> v] : v \in Occupied(l)}
    \cup {[op |-> "remove_stabilizer", v |-> v] : v \in Elems(l.stabs)}
    \cup {[op |-> "superstab", v |-> x[1], w |-> x[2]] :
            x \in {y \in Elems(l.stabs) \X Elems(l.stabs) : y[1] # y[2]}}
    \cup {[op |-> "multiply", v |-> v, w |-> w] : v \in Elems(l.logs), w \in Elems(l.stabs)}
    \cup {[op |-> "order", steps |-> Order]}
Init == l = Empty /\ sch = NoSchedule /\ last = [op |-> ""]
Next == \E o \in Ops :
    /\ Can(l, o) /\ l' = Do(l, o) /\ sch' = Reschedule(sch, l, o, l') /\ last' = o
Spec == Init /\ [][Next]_vars

\* Creation order does not matter to what follows: only the vertex sets.
View == <<Elems(l.data), Elems(l.stabs), Elems(l.logs), l.edges, DOMAIN sch.at, sch.n>>
Sound == WellFormed(l)
\* Only edges of stabilizers that exist are scheduled, by their direction.
Scheduled == /\ DOMAIN sch.at \subseteq StabEdges(l)
             /\ \A e \in DOMAIN sch.at : sch.n > sch.at[e] /\ Order[sch.at[e] + 1] = Direction(e)
             /\ sch.n = -1 => sch.at = <<>>
\* Joining and multiplying give products of operators, without touching others.
Body(p) == [p EXCEPT !.s = {}]
Products == [][
    /\ last'.op \in {"superstab", "multiply"} =>
          OpAt(l', last'.v) = Body(Mul(OpAt(l, last'.v), OpAt(l, last'.w)))
    /\ last'.op \in {"superstab", "multiply"} =>
          \A u \in Occupied(l') \ {last'.v} : IsOp(l', u) => OpAt(l', u) = OpAt(l, u)]_vars
\* Operators that commute with all stabilizers do so afterwards.
Commutes(k) == \A v \in Elems(k.stabs), w \in Elems(k.stabs) \cup Elems(k.logs) : ~Anti(OpAt(k, v), OpAt(k, w))
Commuting == [][last'.op \in {"superstab", "multiply", "remove_stabilizer"} /\ Commutes(l) => Commutes(l')]_vars
\* A new schedule covers all stabilizers.
Covered == [][last'.op = "order" => DOMAIN sch'.at = StabEdges(l')]_vars
=============================================================================
