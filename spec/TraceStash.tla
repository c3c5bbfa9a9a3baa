----------------------------- MODULE TraceStash -----------------------------
EXTENDS Stash, TraceBase
MStInit(tr) == StashInit
MApply(tr, s, e) ==
  CASE e.op = "reset" -> Accept(ResetStep(s))
    [] e.op = "read" ->
         LET r == ReadStep(tr.pieces, s, e.size, e.calls)
         IN IF r.ok /\ e.data = r.data /\ e.n = Len(r.data) /\ e.err \in r.errs
            THEN Accept(r.s) ELSE Refuse(s, [data |-> r.data, errs |-> r.errs, mayAsk |-> r.ok])
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
