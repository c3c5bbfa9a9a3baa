----------------------------- MODULE TraceCert ------------------------------
EXTENDS TraceBase, Listeners
(* files: the content of the two files (each distinct content is a number) and whether they make a usable pair, looked at
   before and after every start. Nobody but the starts touches them, unless a "put" says so. *)
MStInit(tr) == [f |-> <<>>, usable |-> FALSE]
MApply(tr, s, e) ==
  CASE e.op = "put" -> Accept([f |-> e.f, usable |-> e.usable])
    [] e.op = "start" -> [ok |-> s.f # <<>> /\ StartOK(s.usable, e) /\ e.kept = (e.f = s.f),
                          st |-> [f |-> e.f, usable |-> e.now],
                          exp |-> IF s.usable THEN "tls with the pair that is there, files as they are" ELSE "tls, files a pair"]
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
