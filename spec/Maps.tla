-------------------------------- MODULE Maps --------------------------------
(* The string map (C29) and the registry of codings (C32). Both are the list of what was put in. *)
EXTENDS Bytes

\* string map: entries in order of insertion; the first one of a key counts
MapGet(es, key) == LET n == SelectInSeq(es, LAMBDA x : x.key = key)
                   IN IF n = 0 THEN [found |-> FALSE, val |-> 0] ELSE [found |-> TRUE, val |-> es[n].val]
MapPut(es, key, val) == Append(es, [key |-> key, val |-> val])

\* codings: registrations [tok, tag, fail]; the last one answering to a token counts. The coding fails (with a part of
\* the output) as fail says, or gives nothing at all ("void")
Answers(r, tok) == r.tok = tok \/ (r.tok \in {B("gzip"), B("compress")} /\ tok = B("x-") \o r.tok)
CodingFor(rs, tok) == SelectLastInSeq(rs, LAMBDA r : Answers(r, tok))
\* dir is "e" or "d"
Coded(rs, dir, tok, in) ==
  IF tok = B("identity") \/ in = <<>> THEN [err |-> "", out |-> in]
  ELSE LET n == CodingFor(rs, tok)
       IN IF n = 0 THEN [err |-> "unknown", out |-> <<>>]
          ELSE IF rs[n].fail = "void" THEN [err |-> "", out |-> <<>>]
          ELSE IF rs[n].fail # "" THEN [err |-> rs[n].fail, out |-> B("p") \o B(dir) \o <<rs[n].tag>>]
          ELSE [err |-> "", out |-> B(dir) \o <<rs[n].tag>> \o in]
=============================================================================
