-------------------------------- MODULE Wire --------------------------------
(* Responses (C08, C09): what a sequence of builder calls means, and what a strict client reads from the
   bytes a server wrote. *)
EXTENDS Http1, JsonText

----------------------------------------------------------------------------
(* The builder: a response is the fold of the calls made on it *)
NoAttachment == [on |-> FALSE, size |-> 0, data |-> <<>>, fails |-> FALSE, closer |-> FALSE]
\* a value whose text precedes the body
NoJson == [on |-> FALSE, v |-> JNull]
Fresh == [code |-> 200, status |-> <<>>, ctype |-> B("text/html"), hdrs |-> <<>>, body |-> <<>>, cookies |-> <<>>,
          json |-> NoJson, att |-> NoAttachment]
WithHeaders(f, k, vs) ==
  IF EqFold(k, B("content-type")) THEN (IF vs = <<>> THEN f ELSE [f EXCEPT !.ctype = vs[1]])
  ELSE [f EXCEPT !.hdrs = @ \o [n \in 1..Len(vs) |-> [k |-> k, v |-> vs[n]]]]
Build(f, call) ==
  CASE call.f = "code" -> [f EXCEPT !.code = call.n]
    [] call.f = "status" -> [f EXCEPT !.status = call.s]
    [] call.f = "ctype" -> [f EXCEPT !.ctype = call.s]
    [] call.f = "header" -> WithHeaders(f, call.k, call.vs)
    [] call.f = "headers" -> FoldLeft(LAMBDA g, h : WithHeaders(g, h.k, h.vs), f, call.hs)
    [] call.f \in {"string", "bytes"} -> [f EXCEPT !.body = call.s, !.json = NoJson]
    [] call.f = "write" -> [f EXCEPT !.body = @ \o call.s]
    [] call.f = "json" -> [f EXCEPT !.body = <<>>, !.json = [on |-> TRUE, v |-> JRec(call.v)], !.ctype = B("application/json")]
    \* what has no text: an error like any other
    [] call.f = "badjson" -> [f EXCEPT !.code = 500, !.body = call.s, !.json = NoJson, !.ctype = B("application/json")]
    [] call.f = "file" -> [f EXCEPT !.ctype = call.ctype,
                                    !.att = [on |-> TRUE, size |-> Len(call.s), data |-> call.s, fails |-> FALSE, closer |-> TRUE]]
    [] call.f = "attach" -> [f EXCEPT !.att = [on |-> TRUE, size |-> call.size, data |-> call.s, fails |-> call.fails, closer |-> call.closer]]
    [] call.f = "cookie" -> [f EXCEPT !.cookies = Append(@, call)]
    \* an error with a code of its own sets the code; any other one its text, too
    [] call.f = "error" -> IF call.http THEN [f EXCEPT !.code = call.n] ELSE [f EXCEPT !.code = call.n, !.body = call.s, !.json = NoJson]
    [] call.f = "nothing" -> f
    [] call.f = "clear" -> Fresh
Built(calls) == FoldLeft(Build, Fresh, calls)

----------------------------------------------------------------------------
(* The client: the response that starts at position q of out *)
NoHead == [ok |-> FALSE, line |-> <<>>, hdrs |-> <<>>, next |-> 0]
\* position of the CRLF that ends the line starting at q; 0 if it isn't ended by one
EndOfLine(out, q) == LET n == IndexFrom(out, q, LF) IN IF n <= q \/ out[n - 1] # CR THEN 0 ELSE n - 1
RECURSIVE WireHeaders(_, _, _, _)
WireHeaders(out, q, line, hdrs) ==
  LET e == EndOfLine(out, q)
      l == SubSeq(out, q, e - 1)
      colon == IndexOf(l, 58)
  IN IF e = 0 THEN NoHead
     ELSE IF l = <<>> THEN [ok |-> TRUE, line |-> line, hdrs |-> hdrs, next |-> e + 2]
     ELSE IF colon <= 1 \/ ~KeyValid(Before(l, colon)) THEN NoHead
     ELSE WireHeaders(out, e + 2, line, Append(hdrs, [k |-> Before(l, colon), v |-> TrimLeft(From(l, colon + 1), SP)]))
WireHead(out, q) == LET e == EndOfLine(out, q)
                    IN IF e = 0 THEN NoHead ELSE WireHeaders(out, e + 2, SubSeq(out, q, e - 1), <<>>)
Named(hdrs, name) == LET m == SelectSeq(hdrs, LAMBDA h : EqFold(h.k, name)) IN [n \in 1..Len(m) |-> m[n].v]
\* chunks without extensions and trailers; done: the last chunk was there
RECURSIVE WireChunks(_, _, _)
WireChunks(out, q, data) ==
  LET e == EndOfLine(out, q)
      digits == SubSeq(out, q, e - 1)
      n == HexNum(digits)
  IN IF q > Len(out) THEN [ok |-> TRUE, done |-> FALSE, data |-> data, next |-> q]
     ELSE IF e = 0 \/ digits = <<>> \/ \E k \in 1..Len(digits) : ~IsHex(digits[k]) THEN [ok |-> FALSE, done |-> FALSE, data |-> data, next |-> q]
     ELSE IF Len(out) < e + 1 + n + 2 \/ SubSeq(out, e + 2 + n, e + 3 + n) # CRLF THEN [ok |-> FALSE, done |-> FALSE, data |-> data, next |-> q]
     ELSE IF n = 0 THEN [ok |-> TRUE, done |-> TRUE, data |-> data, next |-> e + 4]
     ELSE WireChunks(out, e + 4 + n, data \o SubSeq(out, e + 2, e + 1 + n))

----------------------------------------------------------------------------
(* The obligations *)
StatusLine(proto, f) == proto \o <<SP>> \o Dec(f.code) \o <<SP>> \o (IF f.status = <<>> THEN StatusText(f.code) ELSE f.status)
\* the attributes of a cookie in any order; Max-Age may be spelled without the hyphen
CookieParts(v) == LET p == Split(v, 59) IN [n \in 1..Len(p) |-> TrimSpace(p[n])]
CookieAttrs(c) ==
  (IF c.path = <<>> THEN <<>> ELSE <<B("Path=") \o c.path>>)
  \o (IF c.domain = <<>> THEN <<>> ELSE <<B("Domain=") \o c.domain>>)
  \o (IF c.expires = <<>> THEN <<>> ELSE <<B("Expires=") \o c.expires>>)
  \o (IF c.maxage = 0 THEN <<>> ELSE <<B("Max-Age=") \o (IF c.maxage < 0 THEN B("0") ELSE Dec(c.maxage))>>)
  \o (IF c.samesite = <<>> THEN <<>> ELSE <<B("SameSite=") \o c.samesite>>)
  \o (IF c.secure THEN <<B("Secure")>> ELSE <<>>)
  \o (IF c.httponly THEN <<B("HttpOnly")>> ELSE <<>>)
Unhyphen(a) == IF HasPrefix(a, B("MaxAge=")) THEN B("Max-Age=") \o From(a, 8) ELSE a
CookieMatches(v, c) ==
  LET p == CookieParts(v)
      attrs == [n \in 1..(Len(p) - 1) |-> Unhyphen(p[n + 1])]
      want == CookieAttrs(c)
  IN /\ p[1] = c.name \o <<61>> \o c.value
     /\ Len(attrs) = Len(want)
     /\ {attrs[n] : n \in 1..Len(attrs)} = {want[n] : n \in 1..Len(want)}
HeadersMatch(hdrs, f, defaults) ==
  LET own == f.hdrs
      isOwn(k) == \E n \in 1..Len(own) : EqFold(own[n].k, k)
      active == SelectSeq(defaults, LAMBDA d : ~isOwn(d.k))
      cs == Named(hdrs, B("set-cookie"))
      framing == Len(Named(hdrs, B("content-length"))) + Len(Named(hdrs, B("transfer-encoding")))
      same(k) == SelectSeq(hdrs, LAMBDA h : EqFold(h.k, k)) = SelectSeq(own, LAMBDA h : EqFold(h.k, k))
  IN /\ \A n \in 1..Len(own) : same(own[n].k)         \* (the order of different headers means nothing)
     /\ \A n \in 1..Len(active) :
          LET like == SelectSeq(active, LAMBDA d : EqFold(d.k, active[n].k))      \* (the case may be all they differ in)
              sent == Named(hdrs, active[n].k)
          IN Len(sent) = Len(like) /\ \A v \in {like[m].v : m \in 1..Len(like)} : Len(SelectSeq(sent, LAMBDA x : x = v)) = Len(SelectSeq(like, LAMBDA d : d.v = v))
     /\ Named(hdrs, B("content-type")) = <<f.ctype>>
     /\ Len(cs) = Len(f.cookies) /\ \A n \in 1..Len(cs) : CookieMatches(cs[n], f.cookies[n])
     /\ Len(hdrs) = Len(own) + Len(active) + 1 + Len(cs) + framing
\* how the body is delimited: sized (n bytes), chunked, or by the end of the connection
Framing(f, proto) ==
  IF ~f.att.on THEN [kind |-> "sized", n |-> IF f.json.on THEN -1 ELSE Len(f.body)]
  ELSE IF f.att.size > 0 THEN [kind |-> "sized", n |-> f.att.size]
  ELSE IF proto = B("HTTP/1.0") THEN [kind |-> "close", n |-> 0]
  ELSE [kind |-> "chunked", n |-> 0]
\* n = -1: as long as it happens to be
FramingMatches(hdrs, fr) ==
  LET cl == Named(hdrs, B("content-length"))
      te == Named(hdrs, B("transfer-encoding"))
  IN CASE fr.kind = "sized" -> te = <<>> /\ (IF fr.n = -1 THEN Len(cl) = 1 /\ AllDigits(cl[1]) ELSE cl = <<Dec(fr.n)>>)
       [] fr.kind = "chunked" -> cl = <<>> /\ te = <<B("chunked")>>
       [] fr.kind = "close" -> cl = <<>> /\ te = <<>>
\* what follows the head: ok - as it has to be; keep - and the connection may go on
JsonBody(rest, f) ==
  LET d == JDoc(SubSeq(rest, 1, Len(rest) - Len(f.body)))
  IN HasSuffix(rest, f.body) /\ d.st = "ok" /\ JMeans(d.v) = f.json.v
BodyMatches(out, q, f, fr, cl, head) ==
  LET rest == SubSeq(out, q, Len(out))
      data == IF f.att.on THEN f.att.data ELSE f.body
      ch == WireChunks(out, q, <<>>)
  IN IF head THEN [ok |-> rest = <<>>, keep |-> TRUE]
     ELSE CASE fr.n = -1 -> [ok |-> cl = <<Dec(Len(rest))>> /\ JsonBody(rest, f), keep |-> TRUE]
            [] fr.kind = "sized" /\ fr.n # -1 ->
                 IF Len(data) >= fr.n THEN [ok |-> rest = SubSeq(data, 1, fr.n), keep |-> TRUE]
                 ELSE [ok |-> rest = data, keep |-> FALSE]
            [] fr.kind = "close" -> [ok |-> rest = data, keep |-> FALSE]
            [] fr.kind = "chunked" -> [ok |-> ch.ok /\ ch.data = data /\ ch.next = Len(out) + 1 /\ ch.done = ~f.att.fails,
                                       keep |-> ~f.att.fails]
\* the switch of protocols that precedes the response
SwitchMatches(h, r) ==
  /\ h.ok
  /\ h.line = r.proto \o B(" 101 Switching Protocols")
  /\ Named(h.hdrs, B("upgrade")) = <<SpokenProto(r)>>
  /\ \E n \in 1..Len(Named(h.hdrs, B("connection"))) : EqFold(Named(h.hdrs, B("connection"))[n], B("upgrade"))
  /\ Len(Named(h.hdrs, B("connection"))) = 1
  /\ Named(h.hdrs, B("content-length")) = <<>> /\ Named(h.hdrs, B("transfer-encoding")) = <<>>
\* protos: the versions that may be spoken
WireResponse(out, q, f, defaults, protos, head) ==
  LET h == WireHead(out, q)
      sp == IndexOf(h.line, SP)
      proto == Before(h.line, sp)
      fr == Framing(f, proto)
      bm == BodyMatches(out, h.next, f, fr, Named(h.hdrs, B("content-length")), head)
  IN IF ~h.ok \/ sp = 0 \/ proto \notin protos THEN [ok |-> FALSE, keep |-> FALSE, why |-> "malformed head"]
     ELSE IF h.line # StatusLine(proto, f) THEN [ok |-> FALSE, keep |-> FALSE, why |-> "status line"]
     ELSE IF ~HeadersMatch(h.hdrs, f, defaults) THEN [ok |-> FALSE, keep |-> FALSE, why |-> "headers"]
     ELSE IF ~FramingMatches(h.hdrs, fr) THEN [ok |-> FALSE, keep |-> FALSE, why |-> "framing"]
     ELSE IF ~bm.ok THEN [ok |-> FALSE, keep |-> FALSE, why |-> "body"]
     ELSE [ok |-> TRUE, keep |-> bm.keep, why |-> ""]
=============================================================================
