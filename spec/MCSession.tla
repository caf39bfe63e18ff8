------------------------------ MODULE MCSession ------------------------------
(* All sessions of up to MaxOps operations on two devices and two circuits.  *)
EXTENDS Session
CONSTANT MaxOps
I(g, q) == [g |-> g, q |-> q, p |-> <<>>, i |-> ""]
P1 == << I("X", <<0>>), I("M", <<0>>) >>
P2 == << I("H", <<1>>), I("CX", <<1, 0>>), I("M", <<1, 0>>),
         [g |-> "E_ERASE", q |-> <<0>>, p |-> <<0>>, i |-> ""] >>
VARIABLES circs, dev, n, runs
\* runs[d]: how many complete executions the records of d must contain
vars == <<circs, dev, n, runs>>
Init == /\ circs = <<P1, P2>>
        /\ dev = [d \in 1..2 |-> NoDev(IF d = 1 THEN "clifford" ELSE "stim")]
        /\ n = 0 /\ runs = [d \in 1..2 |-> 0]
Records(k) == {<<m, e>> : m \in UNION {[1..j -> 0..1] : j \in 0..k}, e \in UNION {[1..j -> {0}] : j \in 0..2}}
Run(d, cid, r) ==
    /\ r \/ dev[d].kind # "stim"
    /\ \E rec \in Records(5) :
         LET a == RunDev(dev[d], cid, circs[cid], r, rec[1], rec[2])
         IN  /\ a.cands # {}
             /\ dev' = [dev EXCEPT ![d] = a]
    /\ runs' = [runs EXCEPT ![d] = IF r \/ ~dev[d].live \/ dev[d].cid # cid THEN 1 ELSE @ + 1]
    /\ UNCHANGED circs
Reset(d) == /\ dev[d].live /\ dev' = [dev EXCEPT ![d] = Clear(@)]
            /\ runs' = [runs EXCEPT ![d] = 0] /\ UNCHANGED circs
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E d \in 1..2 : (\E cid \in 1..2, r \in BOOLEAN : Run(d, cid, r)) \/ Reset(d)
Spec == Init /\ [][Next]_vars
CountM(cid) == IF cid = 1 THEN 1 ELSE 2
\* Records are whole executions of the device's circuit since the last reset.
WholeRuns == \A d \in 1..2 : dev[d].live =>
    \A s \in dev[d].cands : /\ Len(s.meas) = runs[d] * CountM(dev[d].cid)
                            /\ Len(s.eras) = (IF dev[d].cid = 2 THEN runs[d] ELSE 0)
\* P1 toggles: without resets results alternate, after a reset they start at 1.
Toggle == \A d \in 1..2 : dev[d].live /\ dev[d].cid = 1 =>
    \A s \in dev[d].cands : \A k \in DOMAIN s.meas : s.meas[k] = k % 2
\* P2 measures a correlated pair in its first execution after a reset.
Bell == \A d \in 1..2 : dev[d].live /\ dev[d].cid = 2 =>
    \A s \in dev[d].cands : Len(s.meas) >= 2 => s.meas[1] = s.meas[2]
OneState == \A d \in 1..2 : dev[d].live => dev[d].cands # {}
=============================================================================
