------------------------------- MODULE MC_Own -------------------------------
(* C15: lists of listeners, each of its kind; what serves a connection is decided by the listener alone. *)
EXTENDS Listeners, Json
CONSTANTS MaxLis
VARIABLE kinds
Init == kinds = <<>>
Next == Len(kinds) < MaxLis /\ \E k \in Kinds : kinds' = Append(kinds, k)
\* adding further listeners changes nothing for the ones already there
Laws == \A n \in 1..Len(kinds) : ServedBy(kinds, n) = ServedBy(SubSeq(kinds, 1, n), n)
Emit == kinds # <<>> => PrintT("STIM " \o ToJson([Kinds |-> kinds]))
=============================================================================
