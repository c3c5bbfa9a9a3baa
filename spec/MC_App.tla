------------------------------- MODULE MC_App -------------------------------
EXTENDS App, Json
Emit == ((Len(acts) = MaxActs \/ BindFails # 0) /\ mainPc = "returned") =>
          PrintT("STIM " \o ToJson([Dl |-> [l \in L |-> l \in Interruptible], Bind |-> BindFails, Acts |-> acts]))
=============================================================================
