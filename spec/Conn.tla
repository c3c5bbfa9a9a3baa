-------------------------------- MODULE Conn --------------------------------
(* One connection (C01-C11): what its stream of bytes makes the server do. The state is the position in
   the stream and what is owed to the client:
     idle    - between requests; the bytes from pos on decide what happens next
     resp    - a handler was called and exactly one response has to be written
     errresp - an error handler was called; one response, and the connection is over
     hij     - the connection belongs to the handler that hijacked it
     dead    - given up: nothing is read, handled or written any more *)
EXTENDS Wire

ConnStart == [ph |-> "idle", pos |-> 1, r |-> EmptyReq, f |-> Fresh, bodyok |-> TRUE]

\* a request as a handler sees it
Seen(r) == [m |-> r.m, path |-> r.path, query |-> r.query, proto |-> ProtoStr(r.proto), hdrs |-> r.hdrs, cl |-> r.cl,
            ctype |-> r.ctype, te |-> r.te, ce |-> r.ce, chunked |-> r.chunked, trailer |-> r.trailer, conn |-> r.conn, upg |-> r.upg,
            ident |-> r.te = <<>> /\ r.ce = <<>>]
\* what does not come from the request itself: nothing but the connection's own attributes
SeenEnv(enc, remote) == [err |-> <<>>, allowed |-> <<>>, alias |-> <<>>, params |-> <<>>, ctx |-> TRUE, enc |-> enc, remote |-> remote]
SeenQuery(r) == QAll(r.query)
SeenCookies(r) == CookiesOf(KVValues(r.hdrs, B("cookie")))

\* the results of reading the body bd in some way
AccessOK(a, bd, c) ==
  /\ a.empties = 0
  /\ CASE a.end = "eof" -> bd.st = "ok" /\ a.data = bd.data
       [] a.end = "err" -> bd.st # "ok" /\ HasPrefix(bd.data, a.data) /\ Len(a.data) <= c.body /\ (bd.st = "big" => a.code = 413)
       [] a.end = "stop" -> HasPrefix(bd.data, a.data)
       [] OTHER -> FALSE
\* was: what the request says about it before and after
HijackOK(hij, s, bd) ==
  /\ hij.was = <<FALSE, hij.on /\ ~hij.err>>
  /\ \/ ~hij.on
     \/ hij.err /\ bd.st # "ok"
     \/ ~hij.err /\ bd.st = "ok" /\ hij.data = SubSeq(s, bd.next, Len(s))

\* the fields of a request that got refused: those which were received, and nothing of other requests
RefusedSeen(s, pos, h, a) ==
  LET r == h.req
      q == pos + Len(h.m) + 1
      lf == IndexFrom(s, q, LF)
      raw == IF h.m = <<>> THEN <<>> ELSE SubSeq(s, q, IF lf = 0 THEN Len(s) ELSE lf - 1)
      target == Before(raw, LastIndexOf(raw, SP))
  IN IF r.path # <<>>
     THEN /\ [a EXCEPT !.hdrs = <<>>] = [Seen(r) EXCEPT !.hdrs = <<>>]
          /\ HasPrefix(a.hdrs, r.hdrs) /\ Len(a.hdrs) <= Len(r.hdrs) + 1
     ELSE /\ [a EXCEPT !.path = <<>>, !.query = <<>>, !.m = <<>>] = [Seen(EmptyReq) EXCEPT !.proto = a.proto]
          /\ a.proto \in {B("HTTP/1.0 "), B("HTTP/1.1 ")}
          /\ a.m = h.m
          /\ a.path \in {<<>>, DecOut(CutL(target, 63))}
          /\ a.query \in {<<>>, CutR(target, 63)}

----------------------------------------------------------------------------
(* The steps. Each yields [ok, st, why]. *)
Yes(st) == [ok |-> TRUE, st |-> st, why |-> ""]
No(st, why) == [ok |-> FALSE, st |-> st, why |-> why]

\* a handler is called
Handle(st, s, c, enc, remote, ev) ==
  LET h == HeadAt(s, st.pos, c)
      bd == BodyAt(s, h.next, h.req, c)
  IN IF st.ph # "idle" THEN No(st, "a handler was called although nothing may be handled: " \o st.ph)
     ELSE IF h.st # "ok" THEN No(st, "a handler was called without a complete request")
     ELSE IF ev.a # Seen(h.req) THEN No(st, "the handler sees another request")
     ELSE IF ev.z # Seen(h.req) THEN No(st, "the request has changed while being handled")
     ELSE IF ev.env # SeenEnv(enc, remote) THEN No(st, "the environment of the request")
     ELSE IF ev.q # SeenQuery(h.req) THEN No(st, "the query of the request")
     ELSE IF ev.cookies # SeenCookies(h.req) THEN No(st, "the cookies of the request")
     ELSE IF \E n \in 1..Len(ev.body) : ~AccessOK(ev.body[n], bd, c) THEN No(st, "the body of the request")
     ELSE IF \E n \in 1..Len(ev.json) : ~JsonOK(ev.json[n], h.req.ctype, bd.st = "ok", bd.data) THEN No(st, "the JSON of the request")
     ELSE IF ~HijackOK(ev.hij, s, bd) THEN No(st, "what the hijacker received")
     ELSE Yes([ph |-> IF ev.hij.on /\ ~ev.hij.err THEN "hij" ELSE "resp",
               pos |-> IF bd.st = "ok" THEN bd.next ELSE st.pos, r |-> h.req, f |-> Built(ev.calls), bodyok |-> bd.st = "ok"])

\* an error handler is called; 439 says that the connection is being closed
Refused(st, s, c, enc, remote, ev) ==
  LET h == HeadAt(s, st.pos, c)
  IN IF ev.code = 439 THEN
       (IF st.ph \in {"dead", "hij"} THEN Yes(st)
        ELSE IF st.ph = "idle" /\ h.st = "need" THEN Yes([st EXCEPT !.ph = "dead"])
        ELSE No(st, "the connection is given up too early"))
     ELSE IF st.ph # "idle" THEN No(st, "an error handler was called although nothing may be handled: " \o st.ph)
     ELSE IF h.st # "bad" THEN No(st, "an error was reported, but the request is: " \o h.st)
     ELSE IF ev.code \notin h.codes THEN No(st, "another error was expected")
     ELSE IF ev.env # SeenEnv(enc, remote) THEN No(st, "the environment of the refused request")
     ELSE IF ~RefusedSeen(s, st.pos, h, ev.a) THEN No(st, "the refused request")
     ELSE Yes([st EXCEPT !.ph = "errresp", !.r = h.req, !.f = Built(ev.calls)])

\* all that was written since the last step
Wrote(st, defaults, ev) ==
  LET sw == WireHead(ev.out, 1)
      up == st.ph = "resp" /\ Upgraded(st.r)
      w == WireResponse(ev.out, IF up THEN sw.next ELSE 1, st.f, defaults,
                        IF st.ph = "resp" THEN {SpokenProto(st.r)} ELSE {B("HTTP/1.0"), B("HTTP/1.1")},
                        st.r.m = B("HEAD"))
      closes == IF st.f.att.on /\ st.f.att.closer THEN 1 ELSE 0
      dead == [st EXCEPT !.ph = "dead"]
  IN IF st.ph \in {"idle", "dead", "hij"} THEN (IF ev.out = <<>> /\ ev.closes = 0 THEN Yes(st) ELSE No(st, "nothing may be written: " \o st.ph))
     ELSE IF ev.closes # closes THEN No(st, "the attachment has to be closed once")
     ELSE IF ev.failed THEN Yes(dead)
     ELSE IF up /\ ~SwitchMatches(sw, st.r) THEN No(st, "the switch of protocols")
     ELSE IF ~w.ok THEN No(st, "the response: " \o w.why)
     ELSE IF st.ph = "resp" /\ w.keep /\ Persists(st.r) /\ st.bodyok THEN Yes([st EXCEPT !.ph = "idle"])
     ELSE Yes(dead)

\* the server has given the connection up
Over(st, s, c, ev) ==
  IF ev.reads # 0 THEN No(st, "a hijacked connection was read")
  ELSE IF st.ph \in {"dead", "hij"} THEN Yes(st)
  ELSE IF st.ph = "idle" /\ HeadAt(s, st.pos, c).st = "need" THEN Yes([st EXCEPT !.ph = "dead"])
  ELSE No(st, "the connection is given up too early: " \o st.ph)
=============================================================================
