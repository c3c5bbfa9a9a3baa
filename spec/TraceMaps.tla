------------------------------ MODULE TraceMaps ------------------------------
EXTENDS Maps, TraceBase
MStInit(tr) == <<>>
MApply(tr, s, e) ==
  CASE e.op = "insert" -> Accept(MapPut(s, e.key, e.val))
    [] e.op = "get" -> LET g == MapGet(s, e.key)
                       IN [ok |-> e.found = g.found /\ (g.found => e.val = g.val), st |-> s, exp |-> g]
    [] e.op = "add" -> [ok |-> e.room = tr.size, st |-> Append(s, [tok |-> e.tok, tag |-> e.tag, fail |-> e.fail]), exp |-> tr.size]
    [] e.op \in {"enc", "dec"} ->
         LET c == Coded(s, IF e.op = "enc" THEN "e" ELSE "d", e.tok, e.in)
         IN [ok |-> e.err = c.err /\ e.out = c.out, st |-> s, exp |-> c]
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
