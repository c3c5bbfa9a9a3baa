------------------------------- MODULE Stash -------------------------------
(* The piece-to-reader adapter (C30). Its source is a list of pieces [Data, Err]; once the list is
   exhausted the source answers with no data and end-of-file. State:
     pos   pieces taken from the source so far
     pend  bytes taken but not delivered yet
     err   the source's error ("" if none yet)                                                    *)
EXTENDS Bytes

StashInit == [pos |-> 0, pend |-> <<>>, err |-> ""]
PieceAt(src, n) == IF n <= Len(src) THEN src[n] ELSE [Data |-> <<>>, Err |-> "eof"]
\* asking the source once
Take(src, s) == LET p == PieceAt(src, s.pos + 1)
                IN [pos |-> s.pos + 1, pend |-> s.pend \o p.Data, err |-> p.Err]
RECURSIVE TakeN(_, _, _)
\* asking it n times in a row is possible only while it has not failed
TakeN(src, s, n) == IF n = 0 THEN [ok |-> TRUE, s |-> s]
                    ELSE IF s.err # "" THEN [ok |-> FALSE, s |-> s]
                    ELSE TakeN(src, Take(src, s), n - 1)
MinOf(a, b) == IF a < b THEN a ELSE b
\* a read of size bytes which asked the source calls times: delivered bytes, errors it may report, next state
ReadStep(src, s, size, calls) ==
  LET t == TakeN(src, s, calls)
      n == MinOf(size, Len(t.s.pend))
      rest == SubSeq(t.s.pend, n + 1, Len(t.s.pend))
  IN [ok   |-> t.ok /\ (calls > 0 \/ s.pend # <<>> \/ s.err # "" \/ size = 0),
      data |-> SubSeq(t.s.pend, 1, n),
      errs |-> IF rest # <<>> \/ t.s.err = "" THEN {""}
               ELSE IF n > 0 \/ size = 0 THEN {"", t.s.err} ELSE {t.s.err},
      s    |-> [t.s EXCEPT !.pend = rest]]
ResetStep(s) == [s EXCEPT !.pend = <<>>, !.err = ""]
=============================================================================
