------------------------------- MODULE Http1 -------------------------------
(* What a client's byte stream means (C01-C05): request heads, their limits and errors, and the framing
   of bodies. Everything is a function of the bytes received, never of how they were cut into reads.

   The grammar is given twice: declaratively (Head, BodyAt: whole lines are looked at), and as a machine
   over single bytes (HStep), which is how a server that gets its input piecewise has to work. That the
   two agree on every stream and every prefix is checked in MC_Http1.

   A configuration c: url - request line length; hnum - number of headers; klen/kspace - length of a
   header name and all names together; vlen/vspace - the same for values (the space is counted as
   received, with the CR of the line, without leading blanks); toks - number of codings; body - size of
   a body; chunk - size of a chunk. *)
EXTENDS Data

IndexFrom(s, q, c) == LET n == SelectInSeq(SubSeq(s, q, Len(s)), LAMBDA x : x = c) IN IF n = 0 THEN 0 ELSE q + n - 1
ChopCR(s) == IF Len(s) > 0 /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
LongestCL == B("9223372036854775807")
RECURSIVE LexLE(_, _)
LexLE(a, b2) == IF a = <<>> THEN TRUE ELSE IF a[1] = b2[1] THEN LexLE(Tail(a), Tail(b2)) ELSE a[1] < b2[1]
CLFits(d) == Len(d) < 19 \/ (Len(d) = 19 /\ LexLE(d, LongestCL))
\* a numeral without leading zeros
Canon(d) == LET t == TrimLeft(d, 48) IN IF t = <<>> THEN <<48>> ELSE t

EmptyReq == [m |-> <<>>, path |-> <<>>, query |-> <<>>, proto |-> <<>>, hdrs |-> <<>>, cl |-> <<48>>, hascl |-> FALSE,
             ctype |-> <<>>, te |-> <<>>, ce |-> <<>>, chunked |-> FALSE, trailer |-> FALSE, conn |-> <<>>, upg |-> <<>>]
Need == [st |-> "need", codes |-> {}, m |-> <<>>, req |-> EmptyReq, next |-> 0]
\* (req: as much of it as is known already)
Bad(codes, r) == [st |-> "bad", codes |-> codes, m |-> r.m, req |-> r, next |-> 0]
Done(req, next) == [st |-> "ok", codes |-> {}, m |-> req.m, req |-> req, next |-> next]

----------------------------------------------------------------------------
(* The pieces of a head *)
\* the request line after the method: raw is everything up to the line feed
LineDefects(raw) ==
  LET sp == LastIndexOf(raw, SP)
      target == Before(raw, sp)
      pr == ChopCR(From(raw, sp + 1))
      path == CutL(target, 63)
  IN IF sp = 0 THEN {400}
     ELSE (IF path = <<>> \/ ~DecOK(path) THEN {400} ELSE {})
          \cup (IF pr \in {B("HTTP/1.0"), B("HTTP/1.1")} THEN {} ELSE {505})
LineReq(m, raw) ==
  LET sp == LastIndexOf(raw, SP)
      target == Before(raw, sp)
  IN [EmptyReq EXCEPT !.m = m, !.path = DecOut(CutL(target, 63)), !.query = CutR(target, 63),
                      !.proto = ChopCR(From(raw, sp + 1))]
KeyValid(k) == k # <<>> /\ \A n \in 1..Len(k) : k[n] > 32
Codings(v) == SelectSeq([n \in 1..Len(Split(v, 44)) |-> TrimSpace(Split(v, 44)[n])], LAMBDA x : x # <<>>)
\* a header line turned into the request's fields; defects: the codes it may be refused with
HeaderDefects(r, k, v, c) ==
  CASE EqFold(k, B("content-length")) ->
         LET d == TrimRight(v, SP)
         IN IF ~AllDigits(d) THEN {400}
            ELSE (IF CLFits(Canon(d)) THEN {} ELSE {413}) \cup (IF r.hascl /\ Canon(d) # r.cl THEN {400} ELSE {})
    [] EqFold(k, B("transfer-encoding")) -> IF Len(r.te) + Len(Codings(v)) > c.toks THEN {431} ELSE {}
    [] EqFold(k, B("content-encoding")) -> IF Len(r.ce) + Len(Codings(v)) > c.toks THEN {431} ELSE {}
    [] OTHER -> {}
WithHeader(r, k, v) ==
  LET a == [r EXCEPT !.hdrs = Append(@, [k |-> k, v |-> v])]
  IN CASE EqFold(k, B("content-length")) -> [r EXCEPT !.cl = Canon(TrimRight(v, SP)), !.hascl = TRUE]
       [] EqFold(k, B("transfer-encoding")) ->
            [a EXCEPT !.te = @ \o Codings(v), !.chunked = @ \/ \E n \in 1..Len(Codings(v)) : EqFold(Codings(v)[n], B("chunked"))]
       [] EqFold(k, B("content-encoding")) -> [a EXCEPT !.ce = @ \o Codings(v)]
       [] EqFold(k, B("content-type")) -> [a EXCEPT !.ctype = v]
       [] EqFold(k, B("connection")) -> [a EXCEPT !.conn = v]
       [] EqFold(k, B("upgrade")) -> [a EXCEPT !.upg = UpgradeOf(v)]
       [] EqFold(k, B("trailer")) -> [a EXCEPT !.trailer = TRUE]
       [] OTHER -> a

----------------------------------------------------------------------------
(* Declarative: the head that starts at position pos of s *)
RECURSIVE Headers(_, _, _, _, _, _, _)
Headers(s, q, c, r, n, kused, vused) ==
  IF q > Len(s) THEN Need
  ELSE IF s[q] = LF THEN Done(r, q + 1)
  ELSE IF s[q] = CR THEN (IF q + 1 > Len(s) THEN Need ELSE IF s[q + 1] = LF THEN Done(r, q + 2) ELSE Bad({400}, r))
  ELSE LET rest == SubSeq(s, q, Len(s))
           e == SelectInSeq(rest, LAMBDA x : x \in {58, LF})
           klen == IF e = 0 THEN Len(rest) ELSE e - 1
           k == SubSeq(rest, 1, klen)
       IN IF klen > c.klen \/ kused + klen > c.kspace THEN Bad({431}, r)
          ELSE IF e = 0 THEN Need
          ELSE IF rest[e] = LF \/ ~KeyValid(k) THEN Bad({400} \cup (IF n + 1 > c.hnum THEN {431} ELSE {}), r)
          ELSE IF n + 1 > c.hnum THEN Bad({431}, r)
          ELSE LET vq == q + klen + 1
                   lf == IndexFrom(s, vq, LF)
                   v0 == TrimLeft(SubSeq(s, vq, IF lf = 0 THEN Len(s) ELSE lf - 1), SP)
                   v == ChopCR(v0)
               IN IF vused + Len(v0) > c.vspace THEN Bad({431}, r)
                  ELSE IF lf = 0 THEN (IF Len(v0) > c.vlen + 1 THEN Bad({431}, r) ELSE Need)
                  ELSE IF Len(v) > c.vlen THEN Bad({431}, r)
                  ELSE IF HeaderDefects(r, k, v, c) # {} THEN Bad(HeaderDefects(r, k, v, c), r)
                  ELSE Headers(s, lf + 1, c, WithHeader(r, k, v), n + 1, kused + klen, vused + Len(v0))

Line(s, q, c, m) ==
  LET lf == IndexFrom(s, q, LF)
      raw == SubSeq(s, q, IF lf = 0 THEN Len(s) ELSE lf - 1)
  IN IF Len(raw) > c.url THEN Bad({414}, [EmptyReq EXCEPT !.m = m])
     ELSE IF lf = 0 THEN Need
     ELSE IF LineDefects(raw) # {} THEN Bad(LineDefects(raw), [EmptyReq EXCEPT !.m = m])
     ELSE Headers(s, lf + 1, c, LineReq(m, raw), 0, 0, 0)

HeadAt(s, pos, c) ==
  LET sp == IndexFrom(s, pos, SP)
      m == SubSeq(s, pos, IF sp = 0 THEN Len(s) ELSE sp - 1)
  IN IF Len(m) > c.url THEN Bad({400}, EmptyReq)
     ELSE IF sp = 0 THEN Need
     ELSE IF m = <<>> THEN Bad({400}, EmptyReq)
     ELSE IF ~KnownMethod(m) THEN Bad({501}, EmptyReq)
     ELSE Line(s, sp + 1, c, m)

----------------------------------------------------------------------------
(* Operational: one byte at a time *)
HInit == [ph |-> "m", seg |-> <<>>, key |-> <<>>, r |-> EmptyReq, n |-> 0, ku |-> 0, vu |-> 0, codes |-> {}]
HFail(h, codes) == [h EXCEPT !.ph = "bad", !.codes = codes]
HStep(h, b, c) ==
  CASE h.ph \in {"bad", "done"} -> h
    [] h.ph = "m" ->
         IF b # SP THEN (IF Len(h.seg) + 1 > c.url THEN HFail(h, {400}) ELSE [h EXCEPT !.seg = Append(@, b)])
         ELSE IF h.seg = <<>> THEN HFail(h, {400})
         ELSE IF ~KnownMethod(h.seg) THEN HFail(h, {501})
         ELSE [h EXCEPT !.ph = "line", !.r.m = h.seg, !.seg = <<>>]
    [] h.ph = "line" ->
         IF b # LF THEN (IF Len(h.seg) + 1 > c.url THEN HFail(h, {414}) ELSE [h EXCEPT !.seg = Append(@, b)])
         ELSE IF LineDefects(h.seg) # {} THEN HFail(h, LineDefects(h.seg))
         ELSE [h EXCEPT !.ph = "key", !.r = LineReq(h.r.m, h.seg), !.seg = <<>>]
    [] h.ph = "key" ->
         IF h.seg = <<>> /\ b = LF THEN [h EXCEPT !.ph = "done"]
         ELSE IF h.seg = <<>> /\ b = CR THEN [h EXCEPT !.ph = "crlf"]
         ELSE IF b \notin {58, LF} THEN
           (IF Len(h.seg) + 1 > c.klen \/ h.ku + 1 > c.kspace THEN HFail(h, {431})
            ELSE [h EXCEPT !.seg = Append(@, b), !.ku = @ + 1])
         ELSE IF b = LF \/ ~KeyValid(h.seg) THEN HFail(h, {400} \cup (IF h.n + 1 > c.hnum THEN {431} ELSE {}))
         ELSE IF h.n + 1 > c.hnum THEN HFail(h, {431})
         ELSE [h EXCEPT !.ph = "val", !.key = h.seg, !.seg = <<>>, !.n = @ + 1]
    [] h.ph = "val" ->
         IF b = SP /\ h.seg = <<>> THEN h
         ELSE IF b # LF THEN
           (IF h.vu + 1 > c.vspace \/ Len(h.seg) + 1 > c.vlen + 1 THEN HFail(h, {431})
            ELSE [h EXCEPT !.seg = Append(@, b), !.vu = @ + 1])
         ELSE LET v == ChopCR(h.seg)
              IN IF Len(v) > c.vlen THEN HFail(h, {431})
                 ELSE IF HeaderDefects(h.r, h.key, v, c) # {} THEN HFail(h, HeaderDefects(h.r, h.key, v, c))
                 ELSE [h EXCEPT !.ph = "key", !.r = WithHeader(h.r, h.key, v), !.seg = <<>>]
    [] h.ph = "crlf" -> IF b = LF THEN [h EXCEPT !.ph = "done"] ELSE HFail(h, {400})

----------------------------------------------------------------------------
(* Bodies. The body of the head r that ended right before position q:
     st: "ok" | "cut" (the stream ends inside) | "bad" (malformed) | "big" (exceeds the limit)
     data: its bytes as far as they are there; next: where the next request starts *)
BodyRes(st, data, next) == [st |-> st, data |-> data, next |-> next]
RECURSIVE TrailerAt(_, _, _)
TrailerAt(s, q, data) ==
  IF q > Len(s) THEN BodyRes("cut", data, 0)
  ELSE IF s[q] = LF THEN BodyRes("ok", data, q + 1)
  ELSE IF s[q] = CR THEN (IF q + 1 > Len(s) THEN BodyRes("cut", data, 0)
                          ELSE IF s[q + 1] = LF THEN BodyRes("ok", data, q + 2) ELSE BodyRes("bad", data, 0))
  ELSE LET lf == IndexFrom(s, q, LF) IN IF lf = 0 THEN BodyRes("cut", data, 0) ELSE TrailerAt(s, lf + 1, data)
\* the end of a line (CRLF or LF) at q: next position, 0 - cut, -1 - something else
EolAt(s, q) == IF q > Len(s) THEN 0
               ELSE IF s[q] = LF THEN q + 1
               ELSE IF s[q] # CR THEN 0 - 1
               ELSE IF q + 1 > Len(s) THEN 0
               ELSE IF s[q + 1] = LF THEN q + 2 ELSE 0 - 1
RECURSIVE ChunksAt(_, _, _, _, _)
ChunksAt(s, q, c, trailer, data) ==
  LET rest == SubSeq(s, q, Len(s))
      e == SelectInSeq(rest, LAMBDA x : ~IsHex(x))
      digits == SubSeq(rest, 1, IF e = 0 THEN Len(rest) ELSE e - 1)
      size == HexNum(digits)
      \* an extension reaches to the end of the line
      ext == e # 0 /\ rest[e] = 59
      x == SelectInSeq(SubSeq(rest, e + 1, Len(rest)), LAMBDA y : y \in {CR, LF})
      eol == IF ~ext THEN EolAt(s, q + e - 1) ELSE IF x = 0 THEN 0 ELSE EolAt(s, q + e + x - 1)
      have == Len(s) - eol + 1
      got == SubSeq(s, eol, IF have < size THEN Len(s) ELSE eol + size - 1)
      after == EolAt(s, eol + size)
  IN IF size > c.chunk THEN BodyRes("bad", data, 0)
     ELSE IF e = 0 THEN BodyRes("cut", data, 0)
     ELSE IF digits = <<>> THEN BodyRes("bad", data, 0)
     ELSE IF eol = 0 THEN BodyRes("cut", data, 0)
     ELSE IF eol < 0 THEN BodyRes("bad", data, 0)
     ELSE IF size = 0 THEN
       (IF trailer THEN TrailerAt(s, eol, data)
        ELSE LET z == EolAt(s, eol)
             IN IF z = 0 THEN BodyRes("cut", data, 0) ELSE IF z < 0 THEN BodyRes("bad", data, 0) ELSE BodyRes("ok", data, z))
     ELSE IF Len(data) + Len(got) > c.body THEN BodyRes("big", data \o got, 0)
     ELSE IF have < size THEN BodyRes("cut", data \o got, 0)
     ELSE IF after = 0 THEN BodyRes("cut", data \o got, 0)
     ELSE IF after < 0 THEN BodyRes("bad", data \o got, 0)
     ELSE ChunksAt(s, after, c, trailer, data \o got)
BodyAt(s, q, r, c) ==
  IF r.chunked THEN ChunksAt(s, q, c, r.trailer, <<>>)
  ELSE LET n == DecVal(r.cl)
       IN IF n = 0 THEN BodyRes("ok", <<>>, q)
          ELSE IF n > c.body THEN BodyRes("big", <<>>, 0)
          ELSE IF Len(s) - q + 1 < n THEN BodyRes("cut", SubSeq(s, q, Len(s)), 0)
          ELSE BodyRes("ok", SubSeq(s, q, q + n - 1), q + n)

\* the chunked coding, one byte at a time
CInit == [ph |-> "size1", size |-> 0, data |-> <<>>]
CTo(k, ph) == [k EXCEPT !.ph = ph]
CHead(k, trailer) == CTo(k, IF k.size > 0 THEN "data" ELSE IF trailer THEN "line" ELSE "last")
CStep(k, b, c, trailer) ==
  CASE k.ph \in {"bad", "big", "done"} -> k
    [] k.ph \in {"size1", "size"} ->
         IF IsHex(b) THEN (IF k.size * 16 + HexVal(b) > c.chunk THEN CTo(k, "bad") ELSE [k EXCEPT !.ph = "size", !.size = @ * 16 + HexVal(b)])
         ELSE IF k.ph = "size1" THEN CTo(k, "bad")
         ELSE IF b = CR THEN CTo(k, "sizecr")
         ELSE IF b = LF THEN CHead(k, trailer)
         ELSE IF b = 59 THEN CTo(k, "ext") ELSE CTo(k, "bad")
    [] k.ph = "ext" -> IF b = CR THEN CTo(k, "sizecr") ELSE IF b = LF THEN CHead(k, trailer) ELSE k
    [] k.ph = "sizecr" -> IF b = LF THEN CHead(k, trailer) ELSE CTo(k, "bad")
    [] k.ph = "data" ->
         IF Len(k.data) + 1 > c.body THEN [k EXCEPT !.ph = "big", !.data = Append(@, b)]
         ELSE [ph |-> IF k.size = 1 THEN "after" ELSE "data", size |-> k.size - 1, data |-> Append(k.data, b)]
    [] k.ph = "after" -> IF b = LF THEN CTo(k, "size1") ELSE IF b = CR THEN CTo(k, "aftercr") ELSE CTo(k, "bad")
    [] k.ph = "aftercr" -> IF b = LF THEN CTo(k, "size1") ELSE CTo(k, "bad")
    [] k.ph \in {"last", "line"} -> IF b = LF THEN CTo(k, "done") ELSE IF b = CR THEN CTo(k, "lastcr")
                                   ELSE IF k.ph = "line" THEN CTo(k, "inline") ELSE CTo(k, "bad")
    [] k.ph = "lastcr" -> IF b = LF THEN CTo(k, "done") ELSE CTo(k, "bad")
    [] k.ph = "inline" -> IF b = LF THEN CTo(k, "line") ELSE k

----------------------------------------------------------------------------
(* Persistence (C07) *)
Upgraded(r) == r.upg \in {B("HTTP/1.0 "), B("HTTP/1.1 ")}
SpokenProto(r) == IF Upgraded(r) THEN SubSeq(r.upg, 1, Len(r.upg) - 1) ELSE r.proto
Persists(r) == \/ Upgraded(r)
               \/ r.proto = B("HTTP/1.1") /\ ~EqFold(r.conn, B("close"))
               \/ r.proto = B("HTTP/1.0") /\ EqFold(r.conn, B("keep-alive"))
=============================================================================
