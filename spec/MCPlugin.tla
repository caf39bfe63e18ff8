------------------------------ MODULE MCPlugin ------------------------------
(* All histories of up to Max operations with plugins p and q.               *)
EXTENDS Plugin
CONSTANT Max
VARIABLES s, n, sent
Init == s = Start /\ n = 0 /\ sent = <<>>
Step(t) == n < Max /\ n' = n + 1 /\ s' = t
Next == \/ \E x \in {"p", "q"} : Step(Register(s, x)) /\ UNCHANGED sent
        \/ \E x \in {"p", "q", "stim"}, a \in 1..2 : Known(s, x) /\ Step(Create(s, x, a)) /\ sent' = Append(sent, <<>>)
        \/ \E d \in DOMAIN s.owner, w \in {"run", "sample"} :
              s.owner[d] # 0 /\ Step(Call(s, d, w)) /\ sent' = [sent EXCEPT ![d] = Append(@, w)]
Spec == Init /\ [][Next]_<<s, n, sent>>
\* Every backend belongs to one device and got exactly what was asked of that device.
Own == /\ \A i, j \in DOMAIN s.owner : s.owner[i] = s.owner[j] /\ s.owner[i] # 0 => i = j
       /\ \A i \in DOMAIN s.made : \E d \in DOMAIN s.owner : s.owner[d] = i
       /\ \A d \in DOMAIN s.owner : s.owner[d] # 0 => s.made[s.owner[d]].calls = sent[d]
OnlyKnown == \A i \in DOMAIN s.made : s.made[i].name \in s.names
=============================================================================
