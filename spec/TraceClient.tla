----------------------------- MODULE TraceClient -----------------------------
EXTENDS Client, TraceBase
MStInit(tr) == ClientInit
MApply(tr, s, e) ==
  CASE e.op = "read" ->
         LET r == ClientRead(tr.reads, s, e.room)
         IN IF /\ e.data = r.data /\ e.err = r.err /\ e.reads = r.reads
               /\ e.dlok                      \* the deadline in force was now + timeout
            THEN Accept(r.s) ELSE Refuse(s, [data |-> r.data, err |-> r.err, reads |-> r.reads, dlok |-> TRUE])
    [] e.op = "unread" -> IF e.held = s.held THEN Accept(ClientUnread(s, e.data)) ELSE Refuse(s, [held |-> s.held])
    [] e.op = "write" -> Same(s, <<e.data, e.err, e.writes, e.kept, e.held>>, <<e.arg, "", 1, TRUE, s.held>>)
    [] e.op = "wfail" -> Same(s, <<e.err, e.writes>>, <<e.want, 1>>)
    [] e.op = "close" -> Same(s, <<e.closes, e.err>>, <<1, e.want>>)
    [] e.op = "info" -> Same(s, <<e.remote, e.conn>>, <<B("1.2.3.4:5"), TRUE>>)
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
