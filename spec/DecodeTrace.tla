---------------------------- MODULE DecodeTrace -----------------------------
(* Recorded decoding sessions, on arbitrary graphs ("low") and on codes       *)
(* ("high").                                                                  *)
EXTENDS SynGraph, Decoding, Json, IOUtils, TLC
VARIABLES c, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
SetOf(s) == {s[i] : i \in DOMAIN s}
OnesAt(s) == {i \in DOMAIN s : s[i] = 1}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Fusion Blossom works with weights rounded to hundredths of the largest    *)
(* one; F: the correction found, m: the minimum.                             *)
Exact(w) == \A i \in DOMAIN w : (100 * w[i]) % MaxOf(SetOf(w)) = 0
Optimal(dec, w, cost, m, size, all) ==
    IF dec = "pm" \/ (dec = "fb" /\ Exact(w)) THEN cost = m
    ELSE IF dec = "fb" THEN 100 * (cost - m) <= MaxOf(SetOf(w)) * (size + all)
    ELSE TRUE

-----------------------------------------------------------------------------
LEdges == [i \in DOMAIN CS.edges |-> SetOf(CS.edges[i])]
\* lib: the Fusion Blossom library itself fails on the same problem.
Panic(st) == CS.dec = "fb" /\ OnesAt(st.era) # {} /\ st.err = "PanicException" /\ st.lib = 1
RegionOK(syn, era, r) ==
    LET R == {i + 1 : i \in SetOf(r)} IN
    /\ R \subseteq DOMAIN LEdges /\ era \subseteq R /\ Decodable(LEdges, R, syn)
    /\ (Decodable(LEdges, era, syn) => R = era)
Dyadic(w) == LET m == MinOf(SetOf(w)) IN \A i \in DOMAIN w : (4 * m) % w[i] = 0
\* The region that grows when the smallest clusters grow first.
TheRegion(st, syn, era) ==
    IF st.weighted = 0 THEN GrownRegion(LEdges, Grow0(LEdges, era, 2), [i \in DOMAIN LEdges |-> 1], syn, 2)
    ELSE LET m == MinOf(SetOf(st.w))
         IN  GrownRegion(LEdges, Grow0(LEdges, era, 16), [i \in DOMAIN LEdges |-> (4 * m) \div st.w[i]], syn, 16)
\* As TheRegion, with edges growing by an increment that depends on the coefficient, in quarters.
ScaledRegion(st, syn, era) ==
    LET m == MinOf(SetOf(st.w))
    IN  GrownRegion(LEdges, Grow0(LEdges, era, 32), [i \in DOMAIN LEdges |-> (64 * m) \div (st.coef * st.w[i])], syn, 32)
\* Every edge split in two by a vertex of its own; an edge is in the region if both halves are.
SplitRegion(syn, era) ==
    LET k == Len(LEdges)
        mid(i) == CS.n + i
        half == [j \in 1..2 * k |-> LET i == ((j - 1) % k) + 1  e == LEdges[i]  v == CS.edges[i][1] IN
                    IF j <= k THEN {v, mid(i)} ELSE (e \ {v}) \cup {mid(i)}]
        era2 == era \cup {i + k : i \in era}
        R == GrownRegion(half, Grow0(half, era2, 2), [j \in DOMAIN half |-> 1], syn, 2)
    IN  {i \in 1..k : i \in R /\ i + k \in R}
LowStep(st) ==
    LET syn == {i - 1 : i \in OnesAt(st.syn)}
        era == OnesAt(st.era)
        sel == OnesAt(st.sel)
        dec == CS.dec
        uf == dec \in {"uf", "ufn"}
    IN  IF ~Decodable(LEdges, DOMAIN LEdges, syn) THEN "undecodable syndrome recorded"
        ELSE IF dec = "pm" /\ era # {} THEN IF st.err = "ValueError" THEN "" ELSE "erasure not refused"
        ELSE IF Panic(st) THEN "library panic on an erasure"
        ELSE IF st.err # "" THEN dec \o " fails: " \o st.err
        ELSE IF ~Explains(LEdges, sel, syn) \/ Len(st.sel) # Len(LEdges) THEN dec \o " does not explain the syndrome"
        ELSE IF st.kept # 1 THEN dec \o " changes its input"
        ELSE IF st.fresh.err = "" /\ st.fresh.sel # st.sel THEN dec \o " depends on earlier runs"
        ELSE IF dec \in {"pm", "fb"} /\ ~Optimal(dec, st.w, Cost(st.w, era, sel), MinCost(LEdges, st.w, era, syn), Cardinality(sel), Len(LEdges))
             THEN dec \o " correction is not of minimum weight"
        ELSE IF uf /\ ~RegionOK(syn, era, st.grown) THEN dec \o " grown region"
        ELSE IF uf /\ ~(sel \subseteq {i + 1 : i \in SetOf(st.grown)}) THEN dec \o " correction outside the grown region"
        ELSE IF uf /\ (st.weighted = 0 \/ Dyadic(st.w)) /\ {i + 1 : i \in SetOf(st.grown)} # TheRegion(st, syn, era) THEN dec \o " growth"
        ELSE IF dec = "uf" /\ st.weighted = 1 /\ ~RegionOK(syn, era, st.scaled) THEN "grown region with a coefficient"
        ELSE IF dec = "uf" /\ st.weighted = 1 /\ Dyadic(st.w) /\ {i + 1 : i \in SetOf(st.scaled)} # ScaledRegion(st, syn, era) THEN "growth with a coefficient"
        ELSE IF dec = "ufn" /\ ~RegionOK(syn, era, st.split) THEN "split-edge grown region"
        ELSE IF dec = "ufn" /\ {i + 1 : i \in SetOf(st.split)} # SplitRegion(syn, era) THEN "split-edge growth"
        ELSE IF dec = "uf" /\ st.weighted = 1 /\ ~RegionOK(syn, era, st.jump) THEN "adaptive grown region"
        ELSE ""
Low == IF CS.err # "" THEN "decoder refuses the graph: " \o CS.err
       ELSE LET b == {i \in DOMAIN CS.steps : LowStep(CS.steps[i]) # ""}
            IN  IF b = {} THEN "" ELSE LowStep(CS.steps[MinOf(b)])

-----------------------------------------------------------------------------
Row(r) == PauliOp(SetOf(r[1]), SetOf(r[2]), {})
Code == [n |-> CS.n, stabs |-> [i \in DOMAIN CS.stabs |-> Row(CS.stabs[i])], logs |-> [i \in DOMAIN CS.logs |-> Row(CS.logs[i])]]
Permille(e) == LET i == e[3] + 1 IN
    CASE e[1] = "X" -> CS.pm.x[i] + CS.pm.y[i]
      [] e[1] = "Z" -> CS.pm.y[i] + CS.pm.z[i]
      [] e[1] = "M" -> CS.pm.m[i]
\* The weights in force; a manager of the syndrome graph can announce others before each run.
Given(st) == IF CS.mode = "managed" THEN st.uw ELSE CS.uw
Impossible(st, e) == IF CS.mode = "errordata" THEN e[1] = "M" /\ Permille(e) = 0
                     ELSE CS.mode \in {"user", "managed"} /\ Given(st)[e[1]][e[3] + 1].s = "inf"
WeightOf(st, e) == IF CS.mode \in {"user", "managed"} THEN Given(st)[e[1]][e[3] + 1].v ELSE 1

HighStep(code, V, ends, st) ==
    LET on == {e \in DOMAIN ends : ends[e] # {} /\ ~Impossible(st, e)}
        Weight(e) == WeightOf(st, e)
        eseq == SetToSeq(on)
        G == [i \in DOMAIN eseq |-> ends[eseq[i]]]
        syn == {v \in V : st.syn[v[1] + 1][v[2] + 1] = 1}
        solvable == Decodable(G, DOMAIN G, syn)
        res == SetOf(st.res)
        erased == {e \in on : e[1] # "M" /\ st.era[e[2] + 1][e[3] + 1] = 1}
        F == {i \in DOMAIN eseq : eseq[i] \in res}
        \* parallel edges are decoded as one edge of the least weight
        Comp(cl) == SetToSeq({ends[e] : e \in {f \in on : ends[f] \subseteq cl}})
        CompW(es) == [i \in DOMAIN es |-> MinOf({Weight(e) : e \in {f \in on : ends[f] = es[i]}})]
        CompOpt(cl) ==
            LET es == Comp(cl)  w == CompW(es)
                ce == {e \in res : ends[e] # {} /\ ends[e] \subseteq cl}
                ct == SumOver([e \in ce |-> Weight(e)], ce)
            IN  Cardinality(cl) > 9 \/ Len(es) > 22 \/
                Optimal(CS.dec, w, ct, MinCost(es, w, {}, syn \cap cl), Cardinality(ce), Len(es))
    IN  IF ~solvable THEN IF st.err = "ValueError" THEN "" ELSE "undecodable syndrome accepted"
        ELSE IF CS.dec = "pm" /\ erased # {} THEN IF st.err = "ValueError" THEN "" ELSE "erasure not refused"
        \* whether an erasure of errors that are impossible otherwise is passed on is left open
        ELSE IF CS.dec = "pm" /\ st.err = "ValueError" /\ \E r \in DOMAIN st.era : OnesAt(st.era[r]) # {} THEN ""
        ELSE IF CS.dec = "fb" /\ erased # {} /\ st.err = "PanicException" THEN "library panic on an erasure"
        ELSE IF st.err # "" THEN CS.dec \o " fails: " \o st.err
        ELSE IF ~(res \subseteq DOMAIN ends) \/ (\E e \in res : ends[e] # {} /\ e \notin on) THEN CS.dec \o " selects impossible errors"
        ELSE IF BoundaryOf(G, F) # syn THEN CS.dec \o " does not explain the syndrome"
        ELSE IF Row(st.frame) # FrameOf(res) THEN "Pauli frame of the result"
        ELSE IF Syndrome(code, Row(st.frame)) # Summed(code, V, syn) THEN "Pauli frame and syndrome"
        ELSE IF st.kept # 1 THEN CS.dec \o " changes its input"
        ELSE IF st.fresh.err = "" /\ st.fresh.frame # st.frame THEN CS.dec \o " depends on earlier runs"
        ELSE IF CS.mode # "errordata" /\ erased = {} /\ CS.dec \in {"pm", "fb"} /\ \E cl \in Clusters(G, DOMAIN G, syn) : ~CompOpt(cl)
             THEN CS.dec \o " correction is not of minimum weight"
        ELSE ""
High ==
    LET code == Code
        E == Edges(code, CS.rounds)
        ends == [e \in E |-> EndsOf(code, e)]
        V == Vertices(code, CS.rounds)
        live == {e \in E : ends[e] # {}}
        certain == CS.mode = "errordata" /\ \E e \in live : Permille(e) > 500
        border == CS.mode = "errordata" /\ \E e \in live : Permille(e) = 500
    IN  IF CS.err # "" THEN IF ~Buildable(code) \/ certain \/ border THEN IF CS.err = "ValueError" THEN "" ELSE "failure: " \o CS.err
                            ELSE "decoder refuses the code: " \o CS.err
        ELSE IF ~Buildable(code) THEN "unsupported graph accepted"
        ELSE IF certain THEN "negative weights accepted"
        ELSE IF CS.edkept # 1 THEN "error data modified"
        ELSE LET b == {i \in DOMAIN CS.steps : HighStep(code, V, ends, CS.steps[i]) # ""}
             IN  IF b = {} THEN "" ELSE HighStep(code, V, ends, CS.steps[MinOf(b)])

Request == IF (CS.bad = 1) = (CS.err # "") THEN "" ELSE IF CS.bad = 1 THEN "accepted: " \o CS.what ELSE "refused: " \o CS.what
Clause == CASE CS.kind = "low" -> Low [] CS.kind = "high" -> High [] CS.kind = "request" -> Request
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ LET cl == Clause IN PrintT(ToJson([id |-> CS.id, bad |-> IF cl = "" THEN <<>> ELSE <<1, cl>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
