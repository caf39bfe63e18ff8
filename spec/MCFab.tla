-------------------------------- MODULE MCFab --------------------------------
(* All histories of removing data qubits from a planar code.                   *)
EXTENDS Fabrication
CONSTANTS L, MaxRemoved
VARIABLES lat, n
Init == lat = Planar(L) /\ n = 0
Next == /\ n < MaxRemoved /\ ~IsRefusal(lat) /\ n' = n + 1
        /\ \E q \in lat.data : lat' \in TakeOut(lat, q, "none", FALSE)
Spec == Init /\ [][Next]_<<lat, n>>
StaysValid == IsRefusal(lat) \/ Why(lat) = ""
Count == IsRefusal(lat) \/ Cardinality(lat.data) = L*L + (L-1)*(L-1) - n
NeverUnsupported == lat.ref \in {"", "stuck"}
=============================================================================
