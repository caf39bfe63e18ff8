------------------------------- MODULE FabTrace -------------------------------
(* Recorded applications of fabrication errors.                                *)
EXTENDS Fabrication, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
CS == Cases[c]
Init == c \in DOMAIN Cases /\ done = FALSE
Elems(s) == {s[i] : i \in DOMAIN s}
Op(o) == Elems(o)
B == CS.before
Load(s) == [ref |-> "", data |-> Elems(s.data), stabs |-> [i \in DOMAIN s.stabs |-> Op(s.stabs[i])],
            logs |-> [i \in DOMAIN s.logs |-> Op(s.logs[i])]]

\* A reference is a position or an extended qubit index (data, stabilizers, logicals).
All == B.data \o B.stabpos \o B.logpos
Pos(r) == IF r.idx < 0 THEN r.pos ELSE IF r.idx < Len(All) THEN All[r.idx + 1] ELSE <<-1, -1>>
IsData(p) == p \in Elems(B.data)
IsStab(p) == p \in Elems(B.stabpos)
StabOp(p) == Op(B.stabs[CHOOSE i \in DOMAIN B.stabpos : B.stabpos[i] = p])
On(o) == {x[1] : x \in o}
ArgsOK == /\ \A i \in DOMAIN CS.fq : IsData(Pos(CS.fq[i]))
          /\ \A i \in DOMAIN CS.fs : IsStab(Pos(CS.fs[i]))
          /\ \A i \in DOMAIN CS.fg : /\ IsStab(Pos(CS.fg[i][1])) /\ IsData(Pos(CS.fg[i][2]))
                                     /\ Pos(CS.fg[i][2]) \in On(StabOp(Pos(CS.fg[i][1])))
Gone == {Pos(CS.fq[i]) : i \in DOMAIN CS.fq} \cup {Pos(CS.fg[i][2]) : i \in DOMAIN CS.fg}
        \cup UNION {On(StabOp(Pos(CS.fs[i]))) : i \in DOMAIN CS.fs}

\* Arguments update the settings of the lattice and stay in force.
Settings == [gauge |-> IF CS.given.gauge = "" THEN CS.set.gauge ELSE CS.given.gauge,
             join |-> IF CS.given.join = "" THEN CS.set.join ELSE CS.given.join = "yes"]
Outcomes == TakeOutAll({Load(B)}, Sorted(Gone), Settings.gauge, Settings.join)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

Clause ==
    IF ~ArgsOK
    THEN IF CS.err = "" THEN "invalid fabrication error accepted"
         ELSE IF CS.err # "ValueError" /\ CS.err # "IndexError" THEN "invalid fabrication error: wrong exception"
         ELSE IF CS.after # B THEN "refused but the lattice changed" ELSE ""
    ELSE LET outs == Outcomes IN
    IF CS.err # ""
    THEN IF CS.err = "NoLogicalOperatorError" THEN IF Stuck \in outs THEN "" ELSE "no logical operator found although there is one"
         ELSE IF CS.err = "AssertionError" THEN IF Clashing \in outs THEN "" ELSE "failed: " \o CS.err
         ELSE IF CS.err = "ValueError" THEN IF Unsupported \in outs THEN "" ELSE "failed: " \o CS.err
         ELSE "failed: " \o CS.err
    ELSE LET a == Load(CS.after)
             ok == {l \in outs : ~IsRefusal(l)}
             ds == {l \in ok : l.data = a.data}
             ss == {l \in ds : SameBag(l.stabs, a.stabs)}
         IN  IF ok = {} THEN "succeeded although the logical operators cannot be kept"
             ELSE IF Settings.gauge = "none" /\ ~Settings.join /\ Why(Load(B)) = "" /\ Why(a) # "" THEN "invalid code: " \o Why(a)
             ELSE IF ds = {} THEN "remaining data qubits"
             ELSE IF ss = {} THEN "stabilizer generators"
             ELSE IF ~\E l \in ss : l.logs = a.logs THEN "logical operators"
             ELSE IF CS.after.data # SelectSeq(B.data, LAMBDA p : p \in a.data) THEN "order of the data qubits"
             ELSE IF CS.after.index # CS.after.data \o CS.after.stabpos \o CS.after.logpos THEN "extended qubit indices"
             ELSE IF CS.now # Settings THEN "settings of the lattice"
             ELSE IF CS.code # <<CS.after.stabs, CS.after.logs>> THEN "operators of the code do not follow the lattice"
             ELSE ""
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED c
          /\ PrintT(ToJson([id |-> CS.id, bad |-> IF Clause = "" THEN <<>> ELSE <<1, Clause>>]))
Spec == Init /\ [][Report]_<<c, done>>
=============================================================================
