----------------------------- MODULE TraceConns -----------------------------
(* Recorded exchanges of several connections with one application: whatever the schedule, the n-th reply on a
   connection is the reply to its n-th request. *)
EXTENDS Conns, TraceBase
MStInit(tr) == [got |-> [c \in 1..Len(tr.reqs) |-> 0]]
MApply(tr, s, e) ==
  CASE e.op = "reply" ->
         LET n == s.got[e.c] + 1
         IN IF n > Len(tr.reqs[e.c]) THEN Refuse(s, "a reply to no request")
            ELSE [ok |-> ReplyFits(tr.files, tr.reqs[e.c][n], e.c, e), st |-> [s EXCEPT !.got[e.c] = n],
                  exp |-> [q |-> tr.reqs[e.c][n], r |-> Reply(tr.files, tr.reqs[e.c][n], e.c)]]
    [] e.op = "saw" -> Same(s, e.sight, SightOf(tr.reqs[e.c][e.n], e.c))
    [] e.op = "end" -> Same(s, e.left = 0 /\ s.got[e.c] = Len(tr.reqs[e.c]), TRUE)
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
