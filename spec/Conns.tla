-------------------------------- MODULE Conns --------------------------------
(* Independence of connections (C16): a fixed application with one of everything that is shared among
   connections (routes with wildcards, middlewares, aliases, error handlers, static files, TRACE, 405,
   virtual hosts, streams), and what each request to it is answered with. A request is
   [k, m, id, name, query, tag, body]; the reply depends on the request and on its connection only. *)
EXTENDS Router

PathOf(q) ==
  CASE q.k = "echo" -> B("/echo/") \o q.id \o B("/") \o q.name
    [] q.k = "alias" -> B("/al")
    [] q.k \in {"denied", "trace"} -> B("/only")
    [] q.k = "static" -> B("/s/") \o q.name
    [] q.k = "lost" -> B("/lost/") \o q.id
    [] q.k = "cookie" -> B("/cookie")
    [] q.k = "json" -> B("/json")
    [] q.k = "stream" -> B("/stream/") \o q.id
    [] q.k = "other" -> B("/") \o q.id
Bar(ps) == FoldLeft(LAMBDA a, p : a \o <<124>> \o p, <<>>, ps)
\* what a handler sees, before and after other connections were served
Sight(q, c, path, id, name, alias, err) == Bar(<<q.m, path, id, name, q.query, q.tag, q.body, alias, err, B("c") \o <<48 + c>>>>)
NoHdr == [allow |-> <<>>, cookie |-> <<>>, mark |-> <<>>]
SightOf(q, c) ==
  CASE q.k = "echo" -> Sight(q, c, PathOf(q), q.id, q.name, <<>>, <<>>)
    [] q.k = "alias" -> Sight(q, c, B("/echo/alias/x"), B("alias"), B("x"), B("/al"), <<>>)
    [] q.k = "lost" -> Sight(q, c, PathOf(q), <<>>, <<>>, <<>>, B("not found"))
    [] q.k = "stream" -> Sight(q, c, PathOf(q), q.id, <<>>, <<>>, <<>>)
    [] OTHER -> Sight(q, c, PathOf(q), <<>>, <<>>, <<>>, <<>>)
\* files: the static files by name
Reply(files, q, c) ==
  CASE q.k \in {"echo", "alias"} -> [code |-> 200, body |-> SightOf(q, c), hdr |-> [NoHdr EXCEPT !.mark = q.tag]]
    [] q.k = "denied" -> [code |-> 405, body |-> B("any"), hdr |-> [NoHdr EXCEPT !.allow = B("POST"), !.mark = q.tag]]
    [] q.k = "trace" -> [code |-> 200, body |-> B("echo"), hdr |-> NoHdr]
    [] q.k = "static" -> LET n == SelectInSeq(files, LAMBDA f : f.name = q.name)
                         IN [code |-> 200, body |-> files[n].data, hdr |-> [NoHdr EXCEPT !.mark = q.tag]]
    [] q.k = "lost" -> [code |-> 404, body |-> SightOf(q, c), hdr |-> [NoHdr EXCEPT !.mark = q.tag]]
    [] q.k = "cookie" -> [code |-> 200, body |-> SightOf(q, c), hdr |-> [NoHdr EXCEPT !.cookie = B("t=") \o q.id, !.mark = q.tag]]
    [] q.k = "json" -> [code |-> 200, body |-> B("{\"id\":\"") \o q.id \o B("\",\"tag\":\"") \o q.tag \o B("\"}"), hdr |-> [NoHdr EXCEPT !.mark = q.tag]]
    [] q.k = "stream" -> [code |-> 200, body |-> SightOf(q, c) \o SightOf(q, c), hdr |-> [NoHdr EXCEPT !.mark = q.tag]]
    [] q.k = "other" -> [code |-> 200, body |-> B("other") \o SightOf(q, c), hdr |-> NoHdr]
\* the request as a TRACE echoes it; sent are the header fields as they were on the wire
ReplyFits(files, q, c, e) ==
  LET r == Reply(files, q, c)
  IN /\ e.code = r.code
     /\ e.hdr = r.hdr
     /\ IF r.body = B("any") THEN TRUE
        ELSE IF r.body = B("echo") THEN EchoFits(e.body, [m |-> q.m, path |-> PathOf(q), query |-> q.query, hdrs |-> e.sent])
        ELSE e.body = r.body
=============================================================================
