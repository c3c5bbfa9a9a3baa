------------------------------ MODULE MC_Client ------------------------------
EXTENDS Client, Json
CONSTANTS MaxScript, MaxOps, Room
VARIABLES script, cst, hist, got, last, lastOp

Entries == {[Data |-> d, Err |-> er, dlerr |-> FALSE] : d \in {<<>>, <<97>>, <<97, 98, 99>>}, er \in {"", "eof", "boom"}}
           \cup {[Data |-> <<97, 98>>, Err |-> "", dlerr |-> TRUE]}
Scripts == UNION {[1..n -> Entries] : n \in 1..MaxScript}
Mark(l) == [n \in 1..Len(l) |-> [l[n] EXCEPT !.Data = [m \in 1..Len(l[n].Data) |-> l[n].Data[m] + 5 * n]]]

Init == /\ \E l \in Scripts : script = Mark(l)
        /\ cst = ClientInit /\ hist = <<>> /\ got = <<>> /\ last = <<>> /\ lastOp = ""
Read == LET r == ClientRead(script, cst, Room)
        IN /\ cst' = r.s /\ got' = got \o r.data /\ last' = r.data /\ lastOp' = "read"
           /\ hist' = Append(hist, [Op |-> "read", Keep |-> 0, Arg |-> <<>>])
           /\ UNCHANGED script
\* push back the last k bytes of what was read last
Unread(k) == /\ lastOp = "read" /\ k <= Len(last)
             /\ LET bytes == SubSeq(last, Len(last) - k + 1, Len(last))
                IN /\ cst' = ClientUnread(cst, bytes)
                   /\ got' = SubSeq(got, 1, Len(got) - k)
             /\ hist' = Append(hist, [Op |-> "unread", Keep |-> k, Arg |-> <<>>])
             /\ lastOp' = "unread"
             /\ UNCHANGED <<script, last>>
\* push back something else: it comes first, and comes back untouched
Foreign == /\ lastOp = "read" /\ cst' = ClientUnread(cst, <<1, 2, 3>>) /\ lastOp' = "unread" /\ cst.pend = <<>>
           /\ hist' = Append(hist, [Op |-> "unread", Keep |-> -1, Arg |-> <<1, 2, 3>>])
           /\ UNCHANGED <<script, last, got>>
Next == Len(hist) < MaxOps /\ (Read \/ Foreign \/ \E k \in 1..2 : Unread(k))

\* whatever is read and pushed back, the bytes come out once and in order
Received == FoldLeft(LAMBDA a, n : a \o (IF script[n].dlerr THEN <<>> ELSE script[n].Data), <<>>,
                     [k \in 1..(cst.pos - 1) |-> k])
            \o SubSeq(EntryAt(script, cst.pos).Data, 1, cst.off)
Exact == SelectSeq(got \o cst.pend, LAMBDA c : c > 9) = Received
Emit == Len(hist) = MaxOps => PrintT("STIM " \o ToJson([Buf |-> Room, Reads |-> script, Ops |-> hist]))
=============================================================================
