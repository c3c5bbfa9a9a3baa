-------------------------------- MODULE Tune --------------------------------
(* The configuration in force (C41). An application is built by a sequence of calls: Listen adds an
   address, Tune replaces the configuration, wherever it stands among them. Whatever was left zero has
   its default. When the application serves, every connection of every address gets the limits, buffers,
   timeout and default headers of the last Tune. *)
EXTENDS Conn

DefLimits == [url |-> 65535, hnum |-> 50, klen |-> 100, kspace |-> 4096, vlen |-> 8192, vspace |-> 8192,
              toks |-> 15, body |-> 536870912, chunk |-> 131072]
\* rbuf - the buffer reads are made into; timeout - of a read, in milliseconds; fbuf - the buffer attachments are read into
DefIO == [rbuf |-> 4096, timeout |-> 90000, fbuf |-> 65536]
DefHeaders == <<[k |-> B("Accept-Encodings"), v |-> B("identity")]>>
SmallestFbuf == 16

Untuned == [c |-> [k \in DOMAIN DefLimits |-> 0], io |-> [k \in DOMAIN DefIO |-> 0], given |-> FALSE, defaults |-> <<>>]
FilledOf(set, def) == [k \in DOMAIN def |-> IF set[k] = 0 THEN def[k] ELSE set[k]]
\* t: what is passed to Tune; given - whether there are default headers in it
InForce(t) == [c |-> FilledOf(t.c, DefLimits), io |-> FilledOf(t.io, DefIO),
               defaults |-> IF t.given THEN t.defaults ELSE DefHeaders]

\* the calls building an application: a sequence of "listen" and [op |-> "tune", t |-> ...]
LastTune(calls) == FoldLeft(LAMBDA acc, x : IF x.op = "tune" THEN x.t ELSE acc, Untuned, calls)

\* what was seen of the socket and of the attachments: sizes - the buffers of the reads; lo, hi - the
\* timeout of each of them was at least lo and at most hi; att - the buffers of attachment reads, with
\* full saying that nothing but the buffer limits them
FbufOf(io) == IF io.fbuf < SmallestFbuf THEN SmallestFbuf ELSE io.fbuf
IoOK(x, io) ==
  /\ \A n \in 1..Len(x.sizes) : x.sizes[n] = io.rbuf
  /\ Len(x.sizes) > 0 => x.lo <= io.timeout /\ io.timeout <= x.hi
  /\ \A n \in 1..Len(x.att) : x.att[n] > 0 /\ x.att[n] <= FbufOf(io)
  /\ \A n \in 1..Len(x.full) : x.full[n] + 15 >= FbufOf(io)
=============================================================================
