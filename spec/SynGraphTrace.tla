--------------------------- MODULE SynGraphTrace ----------------------------
(* Recorded syndrome graphs: structure, weights, components, and the flow of *)
(* syndromes and erasures in and of results out.                             *)
EXTENDS SynGraph, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE

SetOf(s) == {s[i] : i \in DOMAIN s}
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Ops(rows) == [i \in DOMAIN rows |-> Row(rows[i])]
Code == [n |-> CS.n, stabs |-> Ops(CS.stabs), logs |-> Ops(CS.logs)]
Abs(x) == IF x < 0 THEN -x ELSE x

(* The weight an edge should have.  With error data: probabilities in       *)
(* millionths, ordered by -p (a heavier edge is less likely).  An erasure,  *)
(* where the weights consider it, flips independently half of the time.     *)
Pauli(e) == LET i == e[3] + 1 IN
    CASE e[1] = "X" -> CS.pm.x[i] + CS.pm.y[i]
      [] e[1] = "Z" -> CS.pm.y[i] + CS.pm.z[i]
Micro(e) == LET i == e[3] + 1 IN
    IF e[1] = "M" THEN 1000 * CS.pm.m[i]
    ELSE (1000 * Pauli(e)) + (500 * CS.pm.e[i]) - (Pauli(e) * CS.pm.e[i])
Want(e) ==
    CASE CS.mode = "none" -> [s |-> "nan", v |-> 0]
      [] CS.mode = "user" -> CS.uw[e[1]][e[3] + 1]
      [] CS.mode = "errordata" ->
            LET p == Micro(e) IN
            IF p = 0 /\ ~(CS.floor = 1 /\ e[1] # "M") THEN [s |-> "inf", v |-> 0]
            ELSE IF p >= 1000000 THEN [s |-> "-inf", v |-> 0]
            ELSE [s |-> "num", v |-> -p]
\* Does the observed weight (see the recorder) say the same?
Says(w, obs) == obs.s = w.s /\
    (w.s = "num" => IF CS.mode = "errordata" THEN /\ Abs(obs.v + 1000 * w.v) <= 100
                                             \* impossible errors count as errors of 1e-15, or two of them
                                             /\ (w.v = 0 => obs.l \in 134..139)
                       ELSE obs.v = w.v)

G == CS.g
N(s) == DOMAIN s
EdgeIds == {G.edges[i].id : i \in N(G.edges)}
Structure(E, ends, w) ==
    IF Len(G.edges) # Cardinality(E) \/ EdgeIds # E THEN "edges of the graph"
    ELSE IF \E i \in N(G.edges) : Len(G.edges[i].v) # Cardinality(ends[G.edges[i].id])
                                \/ SetOf(G.edges[i].v) # ends[G.edges[i].id] THEN "ends of an edge"
    ELSE IF \E i \in N(G.edges) : ~Says(w[G.edges[i].id], G.edges[i].w) THEN "weight of an edge"
    ELSE IF G.at # [t \in 1..CS.rounds |-> [s \in 1..Len(CS.stabs) |-> <<t - 1, s - 1>>]] THEN "vertices of the graph"
    ELSE ""

CompLinks(comp) == {{comp.v[comp.ends[i][j] + 1] : j \in N(comp.ends[i])} : i \in N(comp.ends)}
CompOK(comp, ends, w, on) ==
    /\ comp.n = Len(comp.v) /\ Cardinality(SetOf(comp.v)) = Len(comp.v)
    /\ Len(comp.e) = Len(comp.ends) /\ Len(comp.w) = Len(comp.e)
    /\ SetOf(comp.e) = {e \in on : ends[e] # {} /\ ends[e] \subseteq SetOf(comp.v)}
    /\ Cardinality(SetOf(comp.e)) = Len(comp.e)
    /\ \A i \in N(comp.e) :
          /\ Len(comp.ends[i]) = Cardinality(ends[comp.e[i]])
          /\ {comp.v[comp.ends[i][j] + 1] : j \in N(comp.ends[i])} = ends[comp.e[i]]
          /\ Says(w[comp.e[i]], comp.w[i])
    /\ comp.dang = \E i \in N(comp.ends) : Len(comp.ends[i]) = 1
    /\ Connected(CompLinks(comp), SetOf(comp.v))
Components(V, ends, w, on) ==
    IF \E i, j \in N(G.comps) : i < j /\ SetOf(G.comps[i].v) \cap SetOf(G.comps[j].v) # {} THEN "components overlap"
    ELSE IF UNION {SetOf(G.comps[i].v) : i \in N(G.comps)} # V THEN "vertices without component"
    ELSE IF \E e \in on : ends[e] # {} /\ \A i \in N(G.comps) : ~(ends[e] \subseteq SetOf(G.comps[i].v)) THEN "edge between components"
    ELSE IF \E i \in N(G.comps) : ~CompOK(G.comps[i], ends, w, on) THEN "component"
    ELSE IF SetOf(G.nontriv) # {i - 1 : i \in {j \in N(G.comps) : Len(G.comps[j].e) > 0}} THEN "components with edges"
    ELSE ""

Stats(E, ends, on) ==
    LET nt == SetOf(G.nontriv)
        st == G.stat IN
    /\ st.n_vertices = CS.rounds * Len(CS.stabs) /\ st.n_edges = Cardinality(E)
    /\ st.n_2_edges = Cardinality({e \in E : Cardinality(ends[e]) = 2})
    /\ st.n_1_edges = Cardinality({e \in E : Cardinality(ends[e]) = 1})
    /\ st.n_0_edges = Cardinality({e \in E : ends[e] = {}})
    /\ st.n_edges_qubit = 2 * CS.rounds * CS.n
    /\ st.n_edges_stab = (CS.rounds - 1) * Len(CS.stabs)
    /\ st.n_edges_disabled = Cardinality({i \in N(G.edges) : ~G.edges[i].on})
    /\ st.n_comp = Len(G.comps) /\ st.n_comp_nontrivial = Cardinality(nt)
    /\ st.n_comp_trivial = Len(G.comps) - Cardinality(nt)
    /\ \A k \in {G.comps[i + 1].n : i \in nt} \cup SetOf(st.n_vertices_in_comp) :
          Cardinality({i \in nt : G.comps[i + 1].n = k}) = Cardinality({i \in N(st.n_vertices_in_comp) : st.n_vertices_in_comp[i] = k})
    /\ \A k \in {Len(G.comps[i + 1].e) : i \in nt} \cup SetOf(st.n_edges_in_comp) :
          Cardinality({i \in nt : Len(G.comps[i + 1].e) = k}) = Cardinality({i \in N(st.n_edges_in_comp) : st.n_edges_in_comp[i] = k})

\* One exchange: syndrome and erasure in, selections out.
StepBad(ends, st) ==
    LET syn(v) == st.syn[v[1] + 1][v[2] + 1]
        \* an enabled edge stands for its duplicates
        eends == {ends[e] : e \in {f \in DOMAIN ends : f[1] # "M" /\ st.era[f[2] + 1][f[3] + 1] = 1}}
        era(e) == IF ends[e] \in eends THEN 1 ELSE 0
        nt == G.nontriv
        picked == UNION {{G.comps[nt[k] + 1].e[i] : i \in {j \in N(st.sel[k]) : st.sel[k][j] = 1}} : k \in N(nt)}
    IN  IF \E k \in N(G.comps) : st.csyn[k] # [i \in N(G.comps[k].v) |-> syn(G.comps[k].v[i])] THEN "syndrome of a component"
        ELSE IF \E k \in N(G.comps) : st.cera[k] # [i \in N(G.comps[k].e) |-> era(G.comps[k].e[i])] THEN "erasure of a component"
        ELSE IF st.early # (IF Len(nt) = 0 \/ st.early = "skip" THEN "skip" ELSE "ValueError") THEN "stale result returned"
        ELSE IF Row(st.frame) # FrameOf(picked) THEN "Pauli frame of the result"
        ELSE IF {G.edges[i].id : i \in {j \in N(st.all) : st.all[j] = 1}} # picked THEN "combined result"
        ELSE ""

Graph ==
    LET code == Code
        E == Edges(code, CS.rounds)
        ends == [e \in E |-> EndsOf(code, e)]
        w == [e \in E |-> Want(e)]
        mayBuild == Buildable(code) /\ ~Mixed(ends, w)
    IN  IF CS.err # "" THEN IF mayBuild \/ CS.err # "ValueError" THEN "graph refused: " \o CS.err ELSE ""
        ELSE IF ~mayBuild THEN "unsupported graph accepted"
        ELSE LET s == Structure(E, ends, w) IN
             IF s # "" THEN s
             ELSE LET on == {G.edges[i].id : i \in {j \in N(G.edges) : G.edges[j].on}}
                      k == Components(Vertices(code, CS.rounds), ends, w, on)
                      badsteps == {i \in N(CS.steps) : StepBad(ends, CS.steps[i]) # ""}
                  IN  IF ~EnabledOK(ends, w, on) THEN "enabled edges"
                      ELSE IF k # "" THEN k
                      ELSE IF ~Stats(E, ends, on) THEN "statistics"
                      ELSE IF badsteps # {} THEN StepBad(ends, CS.steps[CHOOSE i \in badsteps : TRUE])
                      ELSE ""
Request == IF (CS.bad = 1) = (CS.err # "") THEN "" ELSE IF CS.bad = 1 THEN "accepted: " \o CS.what ELSE "refused: " \o CS.what
Clause == IF CS.kind = "graph" THEN Graph ELSE Request
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> IF Clause = "" THEN <<>> ELSE <<1, Clause>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
