------------------------------ MODULE MC_Cert -------------------------------
(* C40: all histories of starts, each of them undisturbed, killed, or unable to write, at every step. *)
EXTENDS Cert, Json, TLC
Emit == (at = "idle" /\ acts # <<>>) => PrintT("STIM " \o ToJson([Crt |-> first[1], Prv |-> first[2], Acts |-> acts]))
=============================================================================
