------------------------------ MODULE MC_Tune -------------------------------
(* C41: all short histories of building an application. Every field is left alone or set, by every Tune.
   The machine keeps the configuration as it goes (as the application does); the declarative LastTune
   agrees with it, on every history. *)
EXTENDS Tune, Json, TLC
CONSTANTS MaxCalls, MaxSet
VARIABLES calls, now, addrs

Fields == (DOMAIN DefLimits) \cup (DOMAIN DefIO) \cup {"defaults"}
Subsets == {s \in SUBSET Fields : Cardinality(s) <= MaxSet}
Tuned(s) == [c |-> [k \in DOMAIN DefLimits |-> IF k \in s THEN 7 ELSE 0], io |-> [k \in DOMAIN DefIO |-> IF k \in s THEN 7 ELSE 0],
             given |-> "defaults" \in s, defaults |-> <<>>]
Init == calls = <<>> /\ now = InForce(Untuned) /\ addrs = 1
DoTune == \E s \in Subsets : /\ calls' = Append(calls, [op |-> "tune", t |-> Tuned(s), set |-> SetToSeq(s)])
                             /\ now' = InForce(Tuned(s)) /\ UNCHANGED addrs
DoListen == /\ addrs < 3 /\ calls' = Append(calls, [op |-> "listen", t |-> Untuned, set |-> <<>>])
            /\ addrs' = addrs + 1 /\ UNCHANGED now
Next == Len(calls) < MaxCalls /\ (DoTune \/ DoListen)

Agree == now = InForce(LastTune(calls))
\* a configuration that is filled already stays as it is; nothing in force is zero
Settled == /\ FilledOf(now.c, DefLimits) = now.c /\ FilledOf(now.io, DefIO) = now.io
           /\ \A k \in DOMAIN now.c : now.c[k] > 0
           /\ \A k \in DOMAIN now.io : now.io[k] > 0
Emit == Len(calls) = MaxCalls =>
          PrintT("STIM " \o ToJson([Area |-> "tune", Calls |-> [n \in 1..Len(calls) |-> [Op |-> calls[n].op, Set |-> calls[n].set]]]))
=============================================================================
