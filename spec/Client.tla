------------------------------- MODULE Client -------------------------------
(* The connection client (C31). The peer is a script of [Data, Err, dlerr]: what the successive reads of
   the connection give (a read takes at most the room the client offers; what does not fit stays), or a
   refusal to set the deadline. State: pos/off in the script, bytes pushed back, an error that came
   together with data and is still to be reported; held is what the last read gave, which stays readable
   until the next one. *)
EXTENDS Bytes

ClientInit == [pos |-> 1, off |-> 0, pend |-> <<>>, derr |-> "", held |-> <<>>]
EofEntry == [Data |-> <<>>, Err |-> "eof", dlerr |-> FALSE]
EntryAt(script, n) == IF n <= Len(script) THEN script[n] ELSE EofEntry
NextPos(script, n) == IF n <= Len(script) THEN n + 1 ELSE n

\* what a read must give: data, error, number of reads of the connection, next state
ReadOnce(script, s, room) ==
  LET en == EntryAt(script, s.pos)
      left == SubSeq(en.Data, s.off + 1, Len(en.Data))
      fits == Len(left) <= room
      data == IF fits THEN left ELSE SubSeq(left, 1, room)
  IN IF s.pend # <<>> THEN [data |-> s.pend, err |-> "", reads |-> 0, s |-> [s EXCEPT !.pend = <<>>]]
     ELSE IF s.derr # "" THEN [data |-> <<>>, err |-> s.derr, reads |-> 0, s |-> [s EXCEPT !.derr = ""]]
     ELSE IF en.dlerr THEN [data |-> <<>>, err |-> IF en.Err = "" THEN "boom" ELSE en.Err, reads |-> 0, s |-> [s EXCEPT !.pos = NextPos(script, @), !.off = 0]]
     ELSE IF ~fits THEN [data |-> data, err |-> "", reads |-> 1, s |-> [s EXCEPT !.off = @ + room]]
     ELSE [data |-> data, err |-> IF data = <<>> THEN en.Err ELSE "", reads |-> 1,
           s |-> [s EXCEPT !.pos = NextPos(script, @), !.off = 0, !.derr = IF data = <<>> THEN "" ELSE en.Err]]
ClientRead(script, s, room) == LET r == ReadOnce(script, s, room) IN [r EXCEPT !.s.held = r.data]
ClientUnread(s, bytes) == [s EXCEPT !.pend = bytes]
=============================================================================
