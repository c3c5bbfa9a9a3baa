----------------------------- MODULE TraceHttp1 -----------------------------
(* Validation of recorded connections. A trace: c - the limits; defaults - the default headers; enc,
   remote - the connection; stream - all the bytes the peer sends; ev - what the server did. *)
EXTENDS Conn, TraceBase
MStInit(tr) == ConnStart
MApply(tr, st, ev) ==
  LET v == CASE ev.op = "req" -> Handle(st, tr.stream, tr.c, tr.enc, tr.remote, ev)
             [] ev.op = "err" -> Refused(st, tr.stream, tr.c, tr.enc, tr.remote, ev)
             [] ev.op = "wrote" -> Wrote(st, tr.defaults, ev)
             [] ev.op = "end" -> Over(st, tr.stream, tr.c, ev)
             [] OTHER -> No(st, "crash or hang")
  IN [ok |-> v.ok, st |-> v.st, exp |-> [why |-> v.why, spec |-> IF v.ok THEN <<>> ELSE <<v.st, HeadAt(tr.stream, v.st.pos, tr.c)>>]]
=============================================================================
