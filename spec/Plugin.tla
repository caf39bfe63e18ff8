------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* Devices and their backends.  Names are registered by plugins; a device   *)
(* of a plugin owns one backend, made when the device is created, and       *)
(* passes every request on to it.  Built-in simulators are made later.      *)
(*   made  : sequence of backends [name, args, calls], calls in order       *)
(*   owner : device -> index in made (0: built-in simulator)                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Local == {"clifford", "stim"}
Start == [made |-> <<>>, owner |-> <<>>, names |-> {}]
Known(s, name) == name \in Local \cup s.names
Register(s, name) == [s EXCEPT !.names = @ \cup {name}]
Create(s, name, args) ==
    IF name \in Local THEN [s EXCEPT !.owner = Append(@, 0)]
    ELSE [s EXCEPT !.made = Append(@, [name |-> name, args |-> args, calls |-> <<>>]),
                   !.owner = Append(@, Len(s.made) + 1)]
Call(s, d, what) == [s EXCEPT !.made[s.owner[d]].calls = Append(@, what)]
=============================================================================
