------------------------------ MODULE TraceData ------------------------------
EXTENDS Data, TraceBase
MStInit(tr) == [sts |-> <<<<>>>>, raw |-> <<>>]
Upd(s, n, x) == [s EXCEPT !.sts = [@ EXCEPT ![n] = x]]
MApply(tr, s, e) ==
  CASE e.op = "set" -> Accept([s EXCEPT !.raw = e.raw])
    [] e.op = "raw" -> Same(s, e.raw, s.raw)
    [] e.op = "get" -> LET q == QGet(s.raw, e.key) IN [ok |-> e.err = q.err /\ (q.err = "" => e.val = q.val), st |-> s, exp |-> q]
    [] e.op = "unwrap" -> Same(s, [err |-> e.err, pairs |-> e.pairs], QAll(s.raw))
    [] e.op = "cookies" -> LET c == CookiesOf(tr.headers)
                           IN Same(s, <<~e.err, e.pairs, e.jar>>, <<c.ok, c.pairs, c.ok>>)
    [] e.op = "add" -> [ok |-> e.same, st |-> Upd(s, e.on, KVAdd(s.sts[e.on], e.key, e.val)), exp |-> TRUE]
    [] e.op = "clear" -> [ok |-> e.same, st |-> Upd(s, e.on, <<>>), exp |-> TRUE]
    [] e.op = "clone" -> Accept([s EXCEPT !.sts = Append(@, s.sts[e.on])])
    [] e.op = "scribble" -> Accept(Upd(s, 1, <<>>))
    [] e.op = "look" ->
         LET kv == s.sts[e.on]
             p == KVGet(kv, e.key)
             v == IF p = 0 THEN <<>> ELSE kv[p].v
         IN Same(s, <<e.found, e.val, e.values, e.has, e.value, e.or>>,
                 <<p # 0, v, KVValues(kv, e.key), p # 0, v, IF p = 0 THEN B("dflt") ELSE v>>)
    [] e.op = "all" -> LET kv == s.sts[e.on] IN Same(s, <<e.keys, e.pairs, e.len, e.iter>>, <<KVKeys(kv), kv, Len(kv), kv>>)
    [] e.op = "frommap" -> Same(s, <<e.ok, e.len>>, <<TRUE, e.want>>)
    [] e.op = "fill" ->
         LET want == [n \in 1..Len(e.src) |-> IF e.src[n] = e.zero[n] THEN e.def[n] ELSE e.src[n]]
         IN Same(s, <<e.out, e.again>>, <<want, want>>)
    [] e.op = "proto" -> Same(s, <<e.known, e.str>>, <<KnownProto(e.in), ProtoStr(e.in)>>)
    [] e.op = "version" -> LET n == B("HTTP/") \o Dec(e.major) \o B(".") \o Dec(e.minor)
                           IN Same(s, <<e.known, e.str>>, <<KnownProto(n), ProtoStr(n)>>)
    [] e.op = "upgrade" -> Same(s, <<e.known, e.str>>, <<UpgradeOf(e.in) # <<>>, UpgradeOf(e.in)>>)
    [] e.op = "method" -> Same(s, <<e.known, e.str>>, IF KnownMethod(e.in) THEN <<TRUE, e.in>> ELSE <<FALSE, <<>>>>)
    [] e.op = "methods" -> Same(s, <<e.list, e.consec, e.count>>, <<MethodBytes, TRUE, Len(Methods)>>)
    [] e.op = "status" -> IF KnownStatus(e.code)
                          THEN Same(s, <<e.text, e.line>>, <<StatusText(e.code), Dec(e.code) \o <<32>> \o StatusText(e.code) \o CRLF>>)
                          ELSE Same(s, <<e.text, e.line>>, <<StatusText(e.code), <<>>>>)
    [] e.op = "error" -> Same(s, <<e.ok, e.code, e.msg>>, <<TRUE, ErrCode[e.name], TRUE>>)
    [] e.op = "newerror" -> Same(s, e.ok, TRUE)
    [] e.op = "mime" -> Same(s, e.type, MimeOf(e.ext))
    [] e.op = "mimes" -> Same(s, <<e.octet, e.plain, e.html, e.json>>,
                              <<"application/octet-stream", "text/plain", "text/html", "application/json">>)
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
