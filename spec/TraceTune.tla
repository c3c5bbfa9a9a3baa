----------------------------- MODULE TraceTune ------------------------------
(* Validation of connections to applications (C41). A trace: calls - how the application was built; stream -
   what the peer sends; ev - what the server did, as in TraceHttp1; the last event has the socket's record. *)
EXTENDS Tune, TraceBase
MStInit(tr) == [cn |-> ConnStart, f |-> InForce(LastTune(tr.calls))]
MApply(tr, st, ev) ==
  LET f == st.f
      v == CASE ev.op = "req" -> Handle(st.cn, tr.stream, f.c, tr.enc, tr.remote, ev)
             [] ev.op = "err" -> Refused(st.cn, tr.stream, f.c, tr.enc, tr.remote, ev)
             [] ev.op = "wrote" -> Wrote(st.cn, f.defaults, ev)
             [] ev.op = "end" -> IF ~IoOK(ev.io, f.io) THEN No(st.cn, "the socket or an attachment is not read as configured")
                                 ELSE Over(st.cn, tr.stream, f.c, ev)
             [] OTHER -> No(st.cn, "crash or hang")
  IN [ok |-> v.ok, st |-> [st EXCEPT !.cn = v.st], exp |-> [why |-> v.why, spec |-> IF v.ok THEN <<>> ELSE <<f, v.st>>]]
=============================================================================
