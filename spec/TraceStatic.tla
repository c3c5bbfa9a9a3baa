---------------------------- MODULE TraceStatic ----------------------------
(* Recorded exchanges with a server of static files. The trace: roots (their dirs as sequences), mounts. *)
EXTENDS Static, TraceBase
MStInit(tr) == 0
RootsOf(tr) == [n \in 1..Len(tr.roots) |-> [files |-> tr.roots[n].files, dirs |-> ToSet(tr.roots[n].dirs)]]
MApply(tr, s, e) ==
  CASE e.op = "file" ->
         LET f == Find(tr.mounts, RootsOf(tr), e.raw)
         IN IF f.file = 0 THEN Same(s, [found |-> e.code = 200, code |-> e.code], [found |-> FALSE, code |-> IF Decode(e.raw).ok THEN 404 ELSE 400])
            ELSE LET x == tr.roots[f.root].files[f.file]
                 IN Same(s, [code |-> e.code, body |-> e.body, type |-> e.type, len |-> IF e.len = -1 /\ x.data = <<>> THEN 0 ELSE e.len],
                         [code |-> 200, body |-> IF e.head THEN <<>> ELSE x.data, type |-> x.type, len |-> Len(x.data)])
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
