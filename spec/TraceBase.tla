----------------------------- MODULE TraceBase -----------------------------
(* Trace validation: every recorded execution of the real code (one JSON line: a header plus a list
   of events) has to be a behaviour of the specification. A trace module defines the specification's
   state for a trace (StInit) and its transition on an event (Apply), which yields
       [ok |-> BOOLEAN, st |-> next state, exp |-> what would have been allowed].
   All traces are validated in one TLC run (one behaviour per trace); a trace that is not accepted
   stops at the offending event and is reported. *)
EXTENDS Bytes, Json, IOUtils

CONSTANTS StInit(_), Apply(_, _, _)
\* (variable names must not occur as bound names in constant definitions: TLC would re-evaluate those)
VARIABLES traceNo, eventNo, specState

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)

TInit == /\ traceNo \in 1..Len(Traces)
         /\ eventNo = 0
         /\ specState = StInit(Traces[traceNo])

TNext == /\ eventNo < Len(Traces[traceNo].ev)
         /\ LET r == Apply(Traces[traceNo], specState, Traces[traceNo].ev[eventNo + 1])
            IN IF r.ok
               THEN /\ specState' = r.st
                    /\ eventNo' = eventNo + 1
                    /\ traceNo' = traceNo
               ELSE /\ PrintT("REJECT " \o ToJson([t |-> traceNo, i |-> eventNo + 1, exp |-> r.exp]))
                    /\ FALSE

\* the usual shape of a verdict: observed value must equal the expected one
Same(s, obs, exp) == [ok |-> obs = exp, st |-> s, exp |-> exp]
Accept(s) == [ok |-> TRUE, st |-> s, exp |-> <<>>]
Refuse(s, e) == [ok |-> FALSE, st |-> s, exp |-> e]
=============================================================================
