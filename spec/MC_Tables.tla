------------------------------ MODULE MC_Tables ------------------------------
(* The tables of the specification agree with each other; one state per row. *)
EXTENDS Data, Json
VARIABLE row
Init == row = 1
Next == row < Len(StatusTable) /\ row' = row + 1
Laws ==
  /\ \A m, n \in 1..Len(StatusTable) : StatusTable[m][1] = StatusTable[n][1] => m = n
  /\ \A m, n \in 1..Len(MimeTable) : MimeTable[m][1] = MimeTable[n][1] => m = n
  /\ \A m, n \in 1..Len(ErrorTable) : ErrorTable[m][1] = ErrorTable[n][1] => m = n
  /\ \A n \in 1..Len(ErrorTable) : KnownStatus(ErrorTable[n][2]) \/ ErrorTable[n][2] = 439
  /\ \A n \in 1..Len(Methods) : KnownMethod(MethodBytes[n]) /\ ~KnownMethod(Lower(MethodBytes[n]))
=============================================================================
