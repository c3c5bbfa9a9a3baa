------------------------------ MODULE TraceOwn ------------------------------
EXTENDS TraceBase, Listeners
MStInit(tr) == [b |-> 0]
MApply(tr, s, e) ==
  CASE e.op = "listen" -> Same(s, e.addr, tr.addrs[e.l])
    [] e.op = "bindhook" -> [ok |-> e.l = s.b + 1 /\ e.l <= Len(tr.addrs) /\ e.addr = tr.addrs[e.l], st |-> [b |-> s.b + 1], exp |-> tr.addrs]
    [] e.op = "served" -> [ok |-> (tr.hooked => s.b = Len(tr.addrs)) /\ e.by = Answers(tr.kinds, e.l, tr.none), st |-> s, exp |-> Answers(tr.kinds, e.l, tr.none)]
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
