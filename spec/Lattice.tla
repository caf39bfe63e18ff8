------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* The editable code lattice.  Vertices are identified by their position.   *)
(*   data  : sequence of positions of data qubits (creation order)          *)
(*   stabs : sequence of positions of stabilizer generators                 *)
(*   logs  : sequence of positions of logical operators                     *)
(*   edges : set of <<op position, data position, factor>>, factor 1,2,3 =  *)
(*           X, Y, Z; at most one edge between an operator and a qubit      *)
(*   info  : position -> group (stabilizers) or name (logical operators)    *)
(***************************************************************************)
EXTENDS StabCode, TLC, Functions

Empty == [data |-> <<>>, stabs |-> <<>>, logs |-> <<>>, edges |-> {}, info |-> <<>>]
Elems(s) == {s[i] : i \in DOMAIN s}
Occupied(l) == Elems(l.data) \cup Elems(l.stabs) \cup Elems(l.logs)
IsOp(l, v) == v \in Elems(l.stabs) \cup Elems(l.logs)
EdgesOf(l, v) == {e \in l.edges : e[1] = v \/ e[2] = v}
Without(s, v) == SelectSeq(s, LAMBDA x : x # v)
IndexIn(s, v) == CHOOSE i \in DOMAIN s : s[i] = v

(* The measurement schedule: number of time steps (-1: none) and the time   *)
(* step, from 0, of every scheduled edge.  Edges are scheduled by the        *)
(* direction from operator to qubit; across the boundary of a periodic      *)
(* lattice the direction is the opposite of the one the positions suggest.  *)
NoSchedule == [n |-> -1, at |-> <<>>]
StabEdges(l) == {e \in l.edges : e[1] \in Elems(l.stabs)}
Wrap(d) == IF d > 1 THEN -1 ELSE IF d < -1 THEN 1 ELSE d
Direction(e) == <<Wrap(e[2][1] - e[1][1]), Wrap(e[2][2] - e[1][2])>>
First(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : s[j] = x => i <= j
\* Edges keep their step as long as they exist; new ones have none.
Reschedule(sch, l, o, after) ==
    IF o.op = "order"
    THEN [n |-> Len(o.steps), at |-> [e \in StabEdges(l) |-> First(o.steps, Direction(e)) - 1]]
    ELSE [sch EXCEPT !.at = Restrict(@, DOMAIN @ \cap after.edges)]

\* Each operation: can it be done, and the lattice after it.
Can(l, o) ==
    CASE o.op = "add_data" -> o.pos \notin Occupied(l)
      [] o.op = "add_stabgen" -> o.pos \notin Occupied(l)
      [] o.op = "add_logical" -> o.pos \notin Occupied(l)
      [] o.op = "add_edge" -> ~\E e \in l.edges : e[1] = o.v /\ e[2] = o.d
      [] o.op = "remove_edge" -> TRUE
      [] o.op = "remove_vertex" -> EdgesOf(l, o.v) = {}
      [] o.op = "remove_stabilizer" -> TRUE
      [] o.op \in {"superstab", "multiply"} ->
            \* products of different Paulis on one qubit are not supported
            ~\E e, f \in l.edges : e[1] = o.v /\ f[1] = o.w /\ e[2] = f[2] /\ e[3] # f[3]
      [] o.op = "order" -> \A e \in StabEdges(l) : Direction(e) \in Elems(o.steps)
      [] o.op = "assign" -> TRUE

Del(l, v) == [l EXCEPT !.data = Without(@, v), !.stabs = Without(@, v), !.logs = Without(@, v),
                       !.edges = @ \ EdgesOf(l, v)]
\* Edges of operator v after multiplication by operator w.
Times(l, v, w) ==
    LET of(u) == {<<e[2], e[3]>> : e \in {x \in l.edges : x[1] = u}}
    IN  (l.edges \ {e \in l.edges : e[1] = v}) \cup {<<v, f[1], f[2]>> : f \in Xor(of(v), of(w))}
Do(l, o) ==
    CASE o.op = "add_data" -> [l EXCEPT !.data = Append(@, o.pos)]
      [] o.op = "add_stabgen" -> [l EXCEPT !.stabs = Append(@, o.pos), !.info = (o.pos :> o.tag) @@ @]
      [] o.op = "add_logical" -> [l EXCEPT !.logs = Append(@, o.pos), !.info = (o.pos :> o.tag) @@ @]
      [] o.op = "add_edge" -> [l EXCEPT !.edges = @ \cup {<<o.v, o.d, o.f>>}]
      [] o.op = "remove_edge" -> [l EXCEPT !.edges = @ \ {<<o.v, o.d, o.f>>}]
      [] o.op \in {"remove_vertex", "remove_stabilizer"} -> Del(l, o.v)
      [] o.op = "superstab" -> Del([l EXCEPT !.edges = Times(l, o.v, o.w)], o.w)
      [] o.op = "multiply" -> [l EXCEPT !.edges = Times(l, o.v, o.w)]
      [] o.op \in {"assign", "order"} -> l

\* The numbered qubits: all of them when indices are assigned; later those that are left.
Renumber(ext, o, after) ==
    CASE o.op = "assign" -> after.data \o after.stabs \o after.logs
      [] o.op \in {"remove_vertex", "remove_stabilizer"} -> Without(ext, o.v)
      [] o.op = "superstab" -> Without(ext, o.w)
      [] OTHER -> ext

\* The operator of vertex v on the data qubits, numbered in creation order.
OpAt(l, v) ==
    LET es == {e \in l.edges : e[1] = v}
        qs(fs) == {IndexIn(l.data, e[2]) - 1 : e \in {x \in es : x[3] \in fs}}
    IN  PauliOp(qs({1, 2}), qs({2, 3}), {})
CodeOf(l) == [n |-> Len(l.data), stabs |-> [i \in DOMAIN l.stabs |-> OpAt(l, l.stabs[i])],
              logs |-> [i \in DOMAIN l.logs |-> OpAt(l, l.logs[i])]]
WellFormed(l) ==
    /\ Cardinality(Occupied(l)) = Len(l.data) + Len(l.stabs) + Len(l.logs)
    /\ \A e \in l.edges : IsOp(l, e[1]) /\ e[2] \in Elems(l.data) /\ e[3] \in 1..3
    /\ \A e, f \in l.edges : e[1] = f[1] /\ e[2] = f[2] => e = f
=============================================================================
