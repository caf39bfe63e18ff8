------------------------------ MODULE PeelTrace -----------------------------
(* Recorded erasure decodings, spanning forests, and histories of subgraphs. *)
EXTENDS Peeling, Json, IOUtils, TLC
VARIABLES c, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
SetOf(s) == {s[i] : i \in DOMAIN s}
One(s) == {x + 1 : x \in SetOf(s)}     \* edges are numbered from 1 here
E == [i \in DOMAIN CS.edges |-> SetOf(CS.edges[i])]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Run(r) ==
    LET sel == One(r.sel)  syn == SetOf(r.syn)  corr == One(r.corr) IN
    IF r.op = "forest" THEN
        IF r.err # "" THEN "construction of the forest fails: " \o r.err
        ELSE IF ~SpanningForest(E, sel, corr) \/ SetOf(r.vs) # Ends(E, sel) THEN "not a spanning forest" ELSE ""
    ELSE IF ~Decodable(E, sel, syn) THEN ""    \* left open
    ELSE IF r.err # "" THEN "decoding fails: " \o r.err
    ELSE IF ~(corr \subseteq sel) THEN "correction outside the erasure"
    ELSE IF BoundaryOf(E, corr) # syn \/ r.len # Len(E) THEN "correction does not explain the syndrome"
    ELSE IF r.kept # 1 THEN "input modified"
    ELSE IF r.fresh # r.corr THEN "depends on earlier runs"
    ELSE ""
Peel == LET b == {i \in DOMAIN CS.runs : Run(CS.runs[i]) # ""}
        IN  IF b = {} THEN <<>> ELSE <<MinOf(b), Run(CS.runs[MinOf(b)])>>

-----------------------------------------------------------------------------
Pairs(s) == {<<s[i][1] + 1, s[i][2]>> : i \in DOMAIN s}
\* What can be seen of the subgraph g after each operation.
View(g, o) ==
    IF SetOf(o.vs) # (IF g.set THEN g.v ELSE 0..(CS.n - 1)) \/ Len(o.vs) # Cardinality(SetOf(o.vs)) THEN "enabled vertices"
    ELSE IF One(o.es) # (IF g.set THEN g.e ELSE DOMAIN E) \/ Len(o.es) # Cardinality(SetOf(o.es)) THEN "enabled edges"
    ELSE IF \E i \in DOMAIN o.ends : SetOf(o.ends[i]) # E[o.es[i] + 1] THEN "ends of an edge"
    ELSE IF g.set /\ (SetOf(o.von) # g.v \/ One(o.eon) # g.e) THEN "enabled or not"
    ELSE IF g.nb = "kept" /\ \E i \in DOMAIN o.nb :
              LET v == o.nb[i][1] IN Pairs(o.nb[i][2]) # Neighbours(E, g, v) \/ Len(o.nb[i][2]) # Degree(E, g, v) THEN "neighbours"
    ELSE IF g.nb = "kept" /\ {o.nb[i][1] : i \in DOMAIN o.nb} # g.v THEN "vertices with neighbours"
    ELSE IF g.lt /\ (SetOf(o.lf) # g.lf \/ Len(o.lf) # Cardinality(g.lf)) THEN "leaf vertices"
    ELSE ""
RECURSIVE SetEdges(_, _, _, _)
\* Enabling a list of edges (with their vertices).
SetEdges(g, l, on, withv) ==
    IF l = <<>> THEN [ok |-> TRUE, g |-> g]
    ELSE LET i == l[1] + 1
             h == IF withv THEN [g EXCEPT !.v = @ \cup E[i]] ELSE g
         IN  IF EdgeRefused(E, h, i, on) THEN [ok |-> FALSE, g |-> g]
             ELSE SetEdges(SetEdge(E, h, i, on), Tail(l), on, withv)
Inconsistent(g) == ~(Ends(E, g.e) \subseteq g.v)
Leaf0(g) == {v \in g.v : Degree(E, g, v) <= 1}
Pop(g, o) ==
    IF o.leaf \notin g.lf THEN [ok |-> FALSE, g |-> g]
    ELSE LET here == At(E, g.e, o.leaf) IN
         IF here = {} THEN [ok |-> o.edge = -1 /\ o.other = -1, g |-> [g EXCEPT !.v = @ \ {o.leaf}, !.lf = @ \ {o.leaf}]]
         ELSE LET i == CHOOSE j \in here : TRUE
                  other == IF Dangling(E, i) THEN -1 ELSE CHOOSE u \in E[i] : u # o.leaf
                  h == SetEdge(E, [g EXCEPT !.lf = @ \ {o.leaf}], i, FALSE)
              IN  [ok |-> o.edge + 1 = i /\ o.other = other, g |-> [h EXCEPT !.v = @ \ {o.leaf}, !.lf = @ \ {o.leaf}]]
Refused(g, o) ==
    CASE o.op = "reset" -> o.a = 0 /\ o.b = 1
      [] o.op = "vertex" -> VertexRefused(E, g, o.a, o.b = 1)
      [] o.op = "edge" -> EdgeRefused(E, g, o.a + 1, o.b = 1)
      [] o.op = "edges" -> ~SetEdges(g, o.l, o.b = 1, o.a = 1).ok
      [] o.op = "update" -> Inconsistent(g)
      [] OTHER -> FALSE
After(g, o) ==
    CASE o.op = "reset" -> [Fresh EXCEPT !.set = TRUE, !.v = IF o.a = 1 THEN 0..(CS.n - 1) ELSE {}, !.e = IF o.b = 1 THEN DOMAIN E ELSE {}]
      [] o.op = "vertex" -> SetVertex(E, g, o.a, o.b = 1)
      [] o.op = "edge" -> SetEdge(E, g, o.a + 1, o.b = 1)
      [] o.op = "edges" -> SetEdges(g, o.l, o.b = 1, o.a = 1).g
      [] o.op = "update" -> [g EXCEPT !.nb = "kept", !.lt = FALSE]
      [] o.op = "clear" -> [g EXCEPT !.nb = "none", !.lt = FALSE]
      [] o.op = "leaves" -> [g EXCEPT !.lt = TRUE, !.lf = Leaf0(g)]
      [] o.op = "pop" -> Pop(g, o).g
      [] o.op = "copy" -> Fresh
      [] o.op = "look" -> g
RECURSIVE Walk(_, _)
Walk(g, i) ==
    IF i > Len(CS.ops) THEN <<>>
    ELSE LET o == CS.ops[i] IN
         IF Refused(g, o) THEN IF o.err = "AssertionError" THEN <<>> ELSE <<i, "accepted: " \o o.op>>
         ELSE IF o.err # "" THEN <<i, o.op \o " fails: " \o o.err>>
         ELSE IF o.op = "pop" /\ ~Pop(g, o).ok THEN <<i, "leaf">>
         ELSE LET h == After(g, o) IN
              IF View(h, o) # "" THEN <<i, o.op \o ": " \o View(h, o)>> ELSE Walk(h, i + 1)
Bad == IF CS.kind = "peel" THEN Peel ELSE Walk(Fresh, 1)
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> Bad]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
