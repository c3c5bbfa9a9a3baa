------------------------------ MODULE MC_Conn ------------------------------
(* A server that gets a history of requests in arbitrary pieces, parses, hands over, lets the handler read
   some of the body, responds, drains and goes on - against the declarative reading of the stream: which
   requests there are, what their bodies are, and where it stops. Every history is a stimulus. *)
EXTENDS Conn, Json
CONSTANTS Area, MaxReqs, Pieces
VARIABLES stream, plan, rcvd, inbox, srv, log

Cfg == [url |-> 64, hnum |-> 5, klen |-> 30, kspace |-> 100, vlen |-> 40, vspace |-> 120, toks |-> 3, body |-> 20, chunk |-> 15]
L(s) == B(s) \o CRLF
One(line) == L(line) \o CRLF
With(line, hs, body) == L(line) \o FoldLeft(LAMBDA a, h : a \o L(h), <<>>, hs) \o CRLF \o body
Requests ==
  CASE Area = "sync" ->
        {One("GET /a HTTP/1.1"), With("POST /b HTTP/1.1", <<"Content-Length: 5">>, B("hello")),
         With("POST /c HTTP/1.1", <<"Transfer-Encoding: chunked">>, L("3") \o L("abc") \o L("2") \o L("de") \o L("0") \o CRLF),
         With("PUT /d HTTP/1.1", <<"Content-Length: 3", "Transfer-Encoding: chunked", "Trailer: X">>, L("4") \o L("wxyz") \o L("0") \o L("X: 1") \o CRLF),
         With("HEAD /e HTTP/1.1", <<"Content-Length: 2">>, CRLF),
         With("POST /f HTTP/1.1", <<"Content-Length: 21">>, B("GET / HTTP/1.1")),
         With("POST /g HTTP/1.1", <<"Transfer-Encoding: chunked">>, L("5") \o L("hell"))}
    [] Area = "keep" ->
        {One("GET /a HTTP/1.1"), One("GET /b HTTP/1.0"), With("GET /c HTTP/1.0", <<"Connection: Keep-Alive">>, <<>>),
         With("GET /d HTTP/1.1", <<"connection: CLOSE">>, <<>>), With("GET /e HTTP/1.0", <<"Upgrade: HTTP/1.1">>, <<>>),
         With("GET /f HTTP/1.1", <<"Upgrade: h2c">>, <<>>), With("GET /g HTTP/1.1", <<"Upgrade: x, HTTP/1.0", "Connection: close">>, <<>>),
         With("HEAD /h HTTP/1.0", <<"Connection: keep-alive">>, <<>>)}
    [] Area = "leak" ->
        {One("GET /a HTTP/1.1"), With("POST /b?q=1 HTTP/1.1", <<"Cookie: a=b", "Content-Type: x/y", "Content-Encoding: gzip", "Content-Length: 2">>, B("hi")),
         With("GET /c HTTP/1.0", <<"Connection: keep-alive", "Trailer: t">>, <<>>),
         With("POST /d HTTP/1.1", <<"Transfer-Encoding: gzip, chunked", "Upgrade: HTTP/1.1">>, L("1") \o L("z") \o L("0") \o CRLF),
         L("GET / HTTP/1.1") \o L("Content-Length: 9") \o B("bad key: x") \o CRLF, B("FOO / HTTP/1.1") \o CRLF, L("HEAD /%zz HTTP/1.1"),
         L("GET /p?z HTTP/9.9"), L("HEAD /h HTTP/1.0") \o L("a: b") \o L("c")}
    [] Area = "hijack" ->
        {One("GET /a HTTP/1.1"), With("POST /b HTTP/1.1", <<"Content-Length: 5">>, B("hello")),
         With("POST /c HTTP/1.1", <<"Transfer-Encoding: chunked">>, L("3") \o L("abc") \o L("0") \o CRLF),
         With("POST /d HTTP/1.1", <<"Content-Length: 12">>, B("cut")), B("raw bytes of another protocol")}
Reads == CASE Area = "sync" -> {"none", "some", "all"} [] Area = "keep" -> {"none"} [] Area = "leak" -> {"all"} [] Area = "hijack" -> {"none", "all"}
Resps == CASE Area = "sync" -> {"text"} [] Area = "keep" -> {"text", "sized", "unsized", "short", "failing", "empty"}
           [] Area = "leak" -> {"custom", "held", "text"} [] Area = "hijack" -> {"text", "hijack"}
Kinds == Requests \X Reads \X Resps
Histories == UNION {[1..n -> Kinds] : n \in 1..MaxReqs}

\* the response as far as the connection is concerned: may it go on after it?
Goes(rs, r) == CASE rs \in {"short", "failing"} -> r.m = B("HEAD")
                 [] rs = "unsized" -> r.m = B("HEAD") \/ SpokenProto(r) = B("HTTP/1.1")
                 [] OTHER -> TRUE
KindOf(n) == plan[((n - 1) % Len(plan)) + 1]

----------------------------------------------------------------------------
(* declarative: everything that has to happen *)
RECURSIVE Declared(_, _, _)
Declared(s, pos, n) ==
  LET h == HeadAt(s, pos, Cfg)
      bd == BodyAt(s, h.next, h.req, Cfg)
      kd == KindOf(n)
  IN IF h.st = "need" THEN <<>>
     ELSE IF h.st = "bad" THEN <<[k |-> "err", codes |-> h.codes]>>
     ELSE IF kd[3] = "hijack" /\ bd.st = "ok" THEN <<[k |-> "hij", req |-> h.req, body |-> bd.data, rest |-> SubSeq(s, bd.next, Len(s))]>>
     ELSE <<[k |-> "req", req |-> h.req, st |-> bd.st, body |-> bd.data, rd |-> IF kd[3] = "hijack" THEN "some" ELSE kd[2]]>>
          \o (IF bd.st = "ok" /\ Persists(h.req) /\ Goes(kd[3], h.req) THEN Declared(s, bd.next, n + 1) ELSE <<>>)

----------------------------------------------------------------------------
(* operational *)
Idle == [ph |-> "head", h |-> HInit, left |-> 0, ch |-> CInit, del |-> <<>>, pieces |-> 0, responded |-> FALSE]
Init == /\ plan \in Histories
        /\ stream = FoldLeft(LAMBDA a, kd : a \o kd[1], <<>>, plan)
        /\ rcvd = 0 /\ inbox = <<>> /\ srv = Idle /\ log = <<>>
Recv == /\ inbox = <<>> /\ rcvd < Len(stream) /\ srv.ph # "over"
        /\ \E n \in Pieces : LET m == IF rcvd + n > Len(stream) THEN Len(stream) ELSE rcvd + n
                             IN inbox' = SubSeq(stream, rcvd + 1, m) /\ rcvd' = m
        /\ UNCHANGED <<stream, plan, srv, log>>
\* the head machine fed with as much of the inbox as belongs to the head; the rest is pushed back
FeedHead(h, in) == FoldLeft(LAMBDA a, b : IF a.h.ph \in {"done", "bad"} THEN [a EXCEPT !.rest = Append(@, b)]
                                          ELSE [a EXCEPT !.h = HStep(a.h, b, Cfg)], [h |-> h, rest |-> <<>>], in)
Head2 == /\ srv.ph = "head" /\ inbox # <<>>
         /\ LET f == FeedHead(srv.h, inbox)
            IN /\ inbox' = f.rest
               /\ srv' = CASE f.h.ph = "done" -> [srv EXCEPT !.ph = "body", !.h = f.h, !.left = IF f.h.r.chunked THEN 0 ELSE DecVal(f.h.r.cl)]
                           [] f.h.ph = "bad" -> [srv EXCEPT !.ph = "over", !.h = f.h]
                           [] OTHER -> [srv EXCEPT !.h = f.h]
               /\ log' = IF f.h.ph = "bad" THEN Append(log, [k |-> "err", codes |-> f.h.codes]) ELSE log
         /\ UNCHANGED <<stream, plan, rcvd>>
Cur == KindOf(Len(log) + 1)
BodyState == IF srv.h.r.chunked THEN (CASE srv.ch.ph = "done" -> "ok" [] srv.ch.ph \in {"bad", "big"} -> srv.ch.ph [] OTHER -> "more")
             ELSE IF srv.left = 0 THEN "ok" ELSE IF srv.left > Cfg.body THEN "big" ELSE "more"
\* the handler (or, after the response, the server) takes the next piece of the body
Wants == IF srv.responded \/ Cur[3] = "hijack" THEN TRUE
         ELSE CASE Cur[2] = "none" -> FALSE [] Cur[2] = "some" -> srv.pieces = 0 [] OTHER -> TRUE
FeedChunks(k, in) == FoldLeft(LAMBDA a, b : IF a.k.ph \in {"done", "bad", "big"} THEN [a EXCEPT !.rest = Append(@, b)]
                                            ELSE [a EXCEPT !.k = CStep(a.k, b, Cfg, srv.h.r.trailer)], [k |-> k, rest |-> <<>>], in)
Body2 == /\ srv.ph = "body" /\ inbox # <<>> /\ Wants /\ BodyState = "more"
         /\ IF srv.h.r.chunked
            THEN LET f == FeedChunks(srv.ch, inbox)
                     got == SubSeq(f.k.data, Len(srv.ch.data) + 1, Len(f.k.data))
                 IN /\ srv' = [srv EXCEPT !.ch = f.k, !.del = @ \o got, !.pieces = @ + (IF got = <<>> THEN 0 ELSE 1)]
                    /\ inbox' = f.rest
            ELSE LET n == IF Len(inbox) < srv.left THEN Len(inbox) ELSE srv.left
                 IN /\ srv' = [srv EXCEPT !.left = @ - n, !.del = @ \o SubSeq(inbox, 1, n), !.pieces = @ + 1]
                    /\ inbox' = From(inbox, n + 1)
         /\ UNCHANGED <<stream, plan, rcvd, log>>
Exhausted == rcvd = Len(stream) /\ inbox = <<>>
\* the handler is done with the body: one way or the other it has an end
Respond == /\ srv.ph = "body" /\ ~srv.responded
           /\ ~Wants \/ BodyState # "more" \/ Exhausted
           /\ LET hij == Cur[3] = "hijack" /\ BodyState = "ok"
              IN /\ log' = Append(log, IF hij THEN [k |-> "hij", req |-> srv.h.r, body |-> srv.del, rest |-> <<>>]
                                       ELSE [k |-> "req", req |-> srv.h.r, st |-> BodyState, body |-> srv.del, rd |-> IF Cur[3] = "hijack" THEN "some" ELSE Cur[2]])
                 /\ srv' = [srv EXCEPT !.responded = TRUE,
                                       !.ph = IF hij THEN "hij" ELSE IF Persists(srv.h.r) /\ Goes(Cur[3], srv.h.r) THEN "body" ELSE "over"]
           /\ UNCHANGED <<stream, plan, rcvd, inbox>>
\* the rest of the body has been drained
NextReq == /\ srv.ph = "body" /\ srv.responded /\ BodyState # "more"
           /\ srv' = IF BodyState = "ok" THEN Idle ELSE [srv EXCEPT !.ph = "over"]
           /\ UNCHANGED <<stream, plan, rcvd, inbox, log>>
Hijacker == /\ srv.ph = "hij" /\ inbox # <<>>
            /\ log' = [log EXCEPT ![Len(log)].rest = @ \o inbox] /\ inbox' = <<>>
            /\ UNCHANGED <<stream, plan, rcvd, srv>>
Gone == /\ Exhausted /\ (srv.ph = "head" \/ srv.ph = "hij" \/ (srv.ph = "body" /\ srv.responded /\ BodyState = "more"))
        /\ srv' = [srv EXCEPT !.ph = "over"] /\ UNCHANGED <<stream, plan, rcvd, inbox, log>>
Next == Recv \/ Head2 \/ Body2 \/ Respond \/ NextReq \/ Hijacker \/ Gone

----------------------------------------------------------------------------
(* the outcome does not depend on the pieces *)
EntryOK(e, d) ==
  /\ e.k = d.k
  /\ CASE e.k = "err" -> e.codes = d.codes
       [] e.k = "hij" -> e.req = d.req /\ e.body = d.body /\ e.rest = d.rest
       [] e.k = "req" -> /\ e.req = d.req /\ HasPrefix(d.body, e.body)
                         /\ (e.rd = "all" => /\ (e.st = "ok" <=> d.st = "ok") /\ (d.st = "ok" => e.body = d.body))
                         /\ (e.rd = "none" => e.body = <<>>)
Outcome == srv.ph = "over" =>
  LET d == Declared(stream, 1, 1)
  IN Len(log) = Len(d) /\ \A n \in 1..Len(d) : EntryOK(log[n], d[n])
NeverStuck == srv.ph = "over" \/ ENABLED Next
Emit == TLCGet("level") = 1 =>
  PrintT("STIM " \o ToJson([Area |-> Area, Stream |-> stream, Kinds |-> [n \in 1..Len(plan) |-> [Rd |-> plan[n][2], Rs |-> plan[n][3]]]]))
=============================================================================
