----------------------------- MODULE Fabrication -----------------------------
(***************************************************************************)
(* Fabrication errors (Auger et al.): data qubits are taken out of a code    *)
(* one after the other.  A code on a lattice is                              *)
(*   [ref |-> "", data |-> set of positions, stabs |-> sequence of operators,            *)
(*    logs |-> sequence of operators]                                        *)
(* and an operator is a set of <<position, factor>>, factor 1, 2, 3 = X,Y,Z. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

Refusal(why) == [ref |-> why]
Stuck == Refusal("stuck")
Clashing == Refusal("clash")
Unsupported == Refusal("unsupported")
IsRefusal(r) == r.ref # ""

WithFactor(l, q, f) == {i \in DOMAIN l.stabs : <<q, f>> \in l.stabs[i]}
Factors(l, q) == {f \in 1..3 : WithFactor(l, q, f) # {}}
\* Different factors of two operators on one qubit: their product is not a
\* product of equal factors and is refused.
Clash(a, b) == \E x \in a, y \in b : x[1] = y[1] /\ x[2] # y[2]

\* Every way of moving the logical operators off q.
MoveLogs(l, q) ==
    LET need == {j \in DOMAIN l.logs : \E f \in 1..3 : <<q, f>> \in l.logs[j]}
        fac(j) == CHOOSE f \in 1..3 : <<q, f>> \in l.logs[j]
    IN  IF \E j \in need : WithFactor(l, q, fac(j)) = {} THEN {Stuck}
        ELSE {IF \E j \in need : Clash(l.logs[j], l.stabs[ch[j]]) THEN Clashing
              ELSE [l EXCEPT !.logs = [j \in DOMAIN l.logs |->
                                         IF j \in need THEN SymDiff(l.logs[j], l.stabs[ch[j]])
                                         ELSE l.logs[j]]]
              : ch \in {g \in [need -> DOMAIN l.stabs] :
                          \A j \in need : g[j] \in WithFactor(l, q, fac(j))}}

\* Replace the stabilizers of a pair by their product.
Join(l, S) ==
    LET i == Min(S) j == Max(S) IN
    [l EXCEPT !.stabs = [k \in 1..(Len(@) - 1) |->
        IF k = i THEN SymDiff(@[i], @[j]) ELSE IF k < j THEN @[k] ELSE @[k + 1]]]
Drop(l, S, x) == [l EXCEPT !.stabs = [k \in DOMAIN @ |-> IF k \in S THEN @[k] \ {x} ELSE @[k]]]
Disable(l, S) == LET i == Min(S) IN
    [l EXCEPT !.stabs = [k \in 1..(Len(@) - 1) |-> IF k < i THEN @[k] ELSE @[k + 1]]]

\* Apply the given action to the group of every factor of q: fs[f] is one of
\* "join", "drop", "disable" (they act on different operators).
RECURSIVE EachFactor(_, _, _)
EachFactor(l, q, fs) ==
    IF DOMAIN fs = {} THEN l
    ELSE LET f == Max(DOMAIN fs)
             S == WithFactor(l, q, f)
             m == CASE fs[f] = "join" -> Join(l, S)
                    [] fs[f] = "drop" -> Drop(l, S, <<q, f>>)
                    [] fs[f] = "disable" -> Disable(l, S)
         IN  EachFactor(m, q, [g \in DOMAIN fs \ {f} |-> fs[g]])

\* The stabilizers once q is gone: gauge handling "none", "half", "all";
\* join: join at the boundary instead of disabling.
Stabs(l, q, gauge, join) ==
    LET fs == Factors(l, q)
        n(f) == Cardinality(WithFactor(l, q, f))
    IN  IF \A f \in fs : n(f) = 2
        THEN CASE gauge = "none" -> {EachFactor(l, q, [f \in fs |-> "join"])}
               [] gauge = "half" ->
                    IF fs = {} THEN {l}
                    ELSE {EachFactor(l, q, [f \in fs |-> IF f = g THEN "join" ELSE "drop"]) : g \in fs}
               [] gauge = "all" -> {EachFactor(l, q, [f \in fs |-> "drop"])}
        ELSE IF \E f \in fs : n(f) > 2 THEN {Unsupported}
        ELSE IF join
        THEN {EachFactor(l, q, [f \in fs |-> IF n(f) = 1 THEN "drop" ELSE "join"])}
        ELSE {EachFactor(l, q, [f \in fs |-> IF n(f) = 1 THEN "disable" ELSE "drop"])}

\* All outcomes of removing q: lattices, or the reason of a refusal.
TakeOut(l, q, gauge, join) ==
    UNION {IF IsRefusal(m) THEN {m}
           ELSE {IF IsRefusal(r) THEN r ELSE [r EXCEPT !.data = @ \ {q}] : r \in Stabs(m, q, gauge, join)}
           : m \in MoveLogs(l, q)}
RECURSIVE TakeOutAll(_, _, _, _)
TakeOutAll(ls, qs, gauge, join) ==
    IF qs = <<>> THEN ls
    ELSE TakeOutAll(UNION {IF IsRefusal(l) THEN {l} ELSE TakeOut(l, Head(qs), gauge, join) : l \in ls},
                   Tail(qs), gauge, join)
Sorted(S) == SetToSortSeq(S, Less)

-----------------------------------------------------------------------------
Anticommute(a, b) == Cardinality({x \in a : \E y \in b : y[1] = x[1] /\ y[2] # x[2]}) % 2 = 1
Partner(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
Why(l) ==
    IF \E i \in DOMAIN l.stabs : l.stabs[i] = {} THEN "identity among the generators"
    ELSE IF \E o \in {l.stabs[i] : i \in DOMAIN l.stabs} \cup {l.logs[i] : i \in DOMAIN l.logs} :
              \E x \in o : x[1] \notin l.data THEN "operator on a removed qubit"
    ELSE IF \E i, j \in DOMAIN l.stabs : Anticommute(l.stabs[i], l.stabs[j])
         THEN "stabilizer generators do not commute"
    ELSE IF \E i \in DOMAIN l.stabs, j \in DOMAIN l.logs : Anticommute(l.stabs[i], l.logs[j])
         THEN "logical operators do not commute with the stabilizers"
    ELSE IF \E i, j \in DOMAIN l.logs : Anticommute(l.logs[i], l.logs[j]) # (j = Partner(i))
         THEN "commutation relations of the logical operators"
    ELSE ""

\* The planar code, from its definition.
Planar(L) ==
    LET R == 0..(2 * L - 2)
        at(p) == {q \in {<<p[1]+1, p[2]>>, <<p[1]-1, p[2]>>, <<p[1], p[2]+1>>, <<p[1], p[2]-1>>} :
                    q[1] \in R /\ q[2] \in R}
        op(p, f) == {<<q, f>> : q \in at(p)}
        xs == {p \in R \X R : p[1] % 2 = 1 /\ p[2] % 2 = 0}
        zs == {p \in R \X R : p[1] % 2 = 0 /\ p[2] % 2 = 1}
        so == SetToSeq({op(p, 1) : p \in xs} \cup {op(p, 3) : p \in zs})
    IN  [ref |-> "", data |-> {p \in R \X R : (p[1] + p[2]) % 2 = 0}, stabs |-> so,
         logs |-> << {<< <<2 * L - 2, 2 * i>>, 1>> : i \in 0..(L - 1)},
                     {<< <<2 * i, 2 * L - 2>>, 3>> : i \in 0..(L - 1)} >>]
=============================================================================
