---------------------------- MODULE TraceRouter ----------------------------
EXTENDS Router, TraceBase
MStInit(tr) == IF tr.what # "router" \/ Refused(tr.ops) THEN [c |-> 0] ELSE [c |-> Compile(tr.ops)]
Judge(e, xs, q) == [ok |-> \E x \in xs : Fits(e, x, q), st |-> 0, exp |-> xs]
Keep(s, r) == [r EXCEPT !.st = s]
MApply(tr, s, e) ==
  CASE e.op = "built" -> Same(s, e.ok, ~Refused(tr.ops))
    [] e.op = "req" -> Keep(s, Judge(e, OnReq(s.c, e.q), e.q))
    [] e.op = "error" -> Keep(s, Judge(e, OnError(s.c, e.q, e.err), e.q))
    [] e.op = "vhost" -> Same(s, [id |-> e.id, code |-> e.code], VHost(tr.regs, e.hosts))
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
