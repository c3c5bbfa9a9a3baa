------------------------------ MODULE MC_Http1 ------------------------------
(* Every stream made of a prefix and up to MaxTok tokens: the machine over bytes and the declarative
   reading agree at every point, what was decided is never revised by further bytes, and every stream is
   a stimulus. *)
EXTENDS Http1, Json
CONSTANTS MaxTok, Area
VARIABLES stream, ntok, mach, decided

CfgWide == [url |-> 64, hnum |-> 5, klen |-> 30, kspace |-> 100, vlen |-> 40, vspace |-> 120, toks |-> 3, body |-> 20, chunk |-> 15]
CfgTight == [url |-> 12, hnum |-> 2, klen |-> 3, kspace |-> 5, vlen |-> 3, vspace |-> 7, toks |-> 1, body |-> 3, chunk |-> 3]
Cfg == IF Area = "tight" THEN CfgTight ELSE CfgWide
G == B("GET / HTTP/1.1") \o CRLF
P(h) == B("POST /a HTTP/1.1") \o CRLF \o B(h) \o CRLF \o CRLF
StartsOf ==
  CASE Area = "line" -> {<<>>, B("GET /")}
    [] Area = "head" -> {G, G \o B("A: b") \o CRLF, B("HEAD /x HTTP/1.0") \o CRLF}
    [] Area = "tight" -> {<<>>, B("GET / HTTP/1.1") \o <<LF>>, B("PUT /a HTTP/1.0") \o <<LF>> \o B("a:b") \o <<LF>>}
    [] Area = "plain" -> {P("Content-Length: 3"), P("Content-Length: 0"), P("Content-Length: 21")}
    [] Area = "chunked" -> {P("Transfer-Encoding: chunked"), P("Content-Length: 2") \o B("") ,
                            B("POST /a HTTP/1.1") \o CRLF \o B("Trailer: x") \o CRLF \o B("Transfer-Encoding: gzip, Chunked") \o CRLF \o CRLF}
Toks ==
  CASE Area = "line" -> {B("GET"), B("POST"), B("G"), B(" "), B("/"), B("a"), B("%41"), B("%4"), B("?"), B("x=1"), B("HTTP/1.1"), B("HTTP/1.0"), B("HTTP/2.0"),
                         B("HTTP/1.1 "), B("http/1.1"), CRLF, <<LF>>, <<CR>>}
    [] Area = "head" -> {B("A"), B(":"), B(" "), B("v"), B("B: w"), CRLF, <<LF>>, <<CR>>, B("Content-Length:"), B("3"), B("00"), B("x"), B("content-length: 3"),
                         B("Transfer-Encoding: chunked"), B("transfer-encoding:a,,b"), B("Connection: close"), B("Upgrade: HTTP/1.0"), B("99999999999999999999"), B("Trailer: y")}
    [] Area = "tight" -> {B("GET"), B(" "), B("/"), B("HTTP/1.1"), B("ab"), B("a:"), B("bcd"), B(":"), CRLF, <<LF>>, B("e"), B("Te:"), B("12")}
    [] Area = "plain" -> {B("a"), B("bc"), B("GET / HTTP/1.1"), CRLF, CRLF \o CRLF, <<LF>>, <<0>>}
    [] Area = "chunked" -> {B("1"), B("3"), B("0"), B("f"), B("10"), CRLF, <<LF>>, <<CR>>, B("abc"), B("z"), B(";e=1"), G \o CRLF}

Init == /\ stream \in StartsOf /\ ntok = 0
        /\ mach = FoldLeft(LAMBDA h, b : HStep(h, b, Cfg), HInit, stream)
        /\ decided = HeadAt(stream, 1, Cfg)
Next == /\ ntok < MaxTok /\ ntok' = ntok + 1
        /\ \E t \in Toks : /\ stream' = stream \o t
                           /\ mach' = FoldLeft(LAMBDA h, b : HStep(h, b, Cfg), mach, t)
                           /\ decided' = HeadAt(stream \o t, 1, Cfg)
Agree == /\ (decided.st = "need" <=> mach.ph \notin {"bad", "done"})
         /\ (decided.st = "bad" => mach.ph = "bad" /\ mach.codes = decided.codes /\ decided.codes # {} /\ mach.r = decided.req)
         /\ (decided.st = "ok" => mach.ph = "done" /\ mach.r = decided.req)
Stable == [][decided.st # "need" => decided' = decided]_<<stream, ntok, mach, decided>>
\* a body is a continuous part of the stream, and stays what it is when more bytes arrive
BodyAgree == (decided.st = "ok" /\ decided.req.chunked) =>
  LET bd == BodyAt(stream, decided.next, decided.req, Cfg)
      k == FoldLeft(LAMBDA a, b : CStep(a, b, Cfg, decided.req.trailer), CInit, SubSeq(stream, decided.next, Len(stream)))
  IN /\ (bd.st = "ok" <=> k.ph = "done") /\ (bd.st = "bad" <=> k.ph = "bad") /\ (bd.st = "big" <=> k.ph = "big")
     /\ (IF bd.st = "big" THEN HasPrefix(bd.data, k.data) ELSE k.data = bd.data)
BodyLaw == decided.st = "ok" =>
  LET bd == BodyAt(stream, decided.next, decided.req, Cfg)
  IN /\ (bd.st = "ok" => /\ bd.next >= decided.next + Len(bd.data) /\ bd.next <= Len(stream) + 1
                         /\ BodyAt(stream \o <<49, 10>>, decided.next, decided.req, Cfg) = bd)
     /\ (bd.st = "bad" => BodyAt(stream \o <<49, 10>>, decided.next, decided.req, Cfg).st = "bad")
     /\ Len(bd.data) <= Len(stream)
Emit == ntok = MaxTok => PrintT("STIM " \o ToJson([Area |-> Area, Stream |-> stream]))
=============================================================================
