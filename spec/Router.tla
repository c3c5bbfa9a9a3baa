------------------------------- MODULE Router -------------------------------
(* The router (C17-C20, C24, the routing half of C21) and the virtual hosts (C22).

   A router is the list of its registrations, in the order they were made. Each is a record
     [op, g, path, m, id, mws, codes, kind, to, sc]
   op "group" (opens a group under g; groups are numbered from 2 on in the order of their creation, 1 is
   the root), "use", "route", "catch", "err", "mut", "alias". A middleware is [id, kind, a, b]; sc is what the
   endpoint does: [code, body, none, panics]. A request is [m, path, query, hdrs, plain]. *)
EXTENDS Data

----------------------------------------------------------------------------
(* Groups *)
GroupsOf(ops) ==
  FoldLeft(LAMBDA gs, o : IF o.op = "group" THEN Append(gs, [parent |-> o.g, prefix |-> gs[o.g].prefix \o o.path]) ELSE gs,
           <<[parent |-> 0, prefix |-> <<>>]>>, ops)
RECURSIVE Lineage(_, _)
Lineage(gs, g) == IF g = 0 THEN <<>> ELSE Append(Lineage(gs, gs[g].parent), g)
RECURSIVE Preorder(_, _)
Preorder(gs, g) ==
  FoldLeft(LAMBDA a, k : IF gs[k].parent = g THEN a \o Preorder(gs, k) ELSE a, <<g>>, [k \in 1..Len(gs) |-> k])
\* the middlewares a group itself was given, and all that apply within it: outermost first
OwnMws(ops, g) == FoldLeft(LAMBDA a, o : IF o.op = "use" /\ o.g = g THEN a \o o.mws ELSE a, <<>>, ops)
ScopeMws(ops, gs, g) == FoldLeft(LAMBDA a, k : a \o OwnMws(ops, k), <<>>, Lineage(gs, g))

----------------------------------------------------------------------------
(* Templates and paths: sequences of segments; trailing slashes mean nothing *)
SegmentsOf(p) == LET q == NormPath(p) IN IF Len(q) < 2 THEN <<>> ELSE Split(Tail(q), 47)
IsWild(s) == Len(s) >= 2 /\ s[1] = 123 /\ s[Len(s)] = 125
WildName(s) == SubSeq(s, 2, Len(s) - 1)
\* a segment is a wildcard in braces, or free of opening braces
GoodSegment(s) == IF Has(s, 123) THEN IsWild(s) /\ ~Has(WildName(s), 123) /\ ~Has(WildName(s), 125) ELSE TRUE
GoodTemplate(p) == Len(p) > 0 /\ p[1] = 47 /\ \A n \in 1..Len(SegmentsOf(p)) : GoodSegment(SegmentsOf(p)[n])

\* a catcher's prefix and an alias's source: group's prefix and own one joined by single slashes
JoinPath(a, b) ==
  LET all == a \o <<47>> \o b
      parts == SelectSeq(Split(all, 47), LAMBDA x : x # <<>>)
      body == FoldLeft(LAMBDA acc, x : acc \o <<47>> \o x, <<>>, parts)
  IN IF a = <<>> /\ b = <<>> THEN <<>> ELSE IF body = <<>> THEN <<47>> ELSE body

RoutesOf(ops, gs) ==
  LET rs == SelectSeq(ops, LAMBDA o : o.op = "route")
  IN [n \in 1..Len(rs) |-> [full |-> gs[rs[n].g].prefix \o rs[n].path, tmpl |-> NormPath(gs[rs[n].g].prefix \o rs[n].path),
                            segs |-> SegmentsOf(gs[rs[n].g].prefix \o rs[n].path), m |-> rs[n].m, id |-> rs[n].id, sc |-> rs[n].sc,
                            chain |-> ScopeMws(ops, gs, rs[n].g) \o rs[n].mws]]
CatchersOf(ops, gs) ==
  LET cs == SelectSeq(ops, LAMBDA o : o.op = "catch")
  IN [n \in 1..Len(cs) |-> [prefix |-> JoinPath(gs[cs[n].g].prefix, cs[n].path), id |-> cs[n].id, sc |-> cs[n].sc, g |-> cs[n].g,
                            chain |-> ScopeMws(ops, gs, cs[n].g) \o cs[n].mws]]
MutatorsOf(ops, gs) ==
  LET order == Preorder(gs, 1)
  IN FoldLeft(LAMBDA a, g : a \o FoldLeft(LAMBDA b, o :
                 IF o.op = "mut" /\ o.g = g THEN Append(b, [kind |-> o.kind, id |-> o.id, from |-> <<>>, to |-> o.to])
                 ELSE IF o.op = "alias" /\ o.g = g THEN Append(b, [kind |-> "alias", id |-> 0, from |-> JoinPath(gs[g].prefix, o.path), to |-> o.to])
                 ELSE b, <<>>, ops), <<>>, order)
\* the error handlers: the last one registered for a code counts, wherever it was registered
ErrorsOf(ops) ==
  FoldLeft(LAMBDA f, o : IF o.op = "err" THEN LET cs == IF o.codes = <<>> THEN {0} ELSE ToSet(o.codes)
                                              IN [c \in DOMAIN f \cup cs |-> IF c \in cs THEN [id |-> o.id, sc |-> o.sc] ELSE f[c]]
                         ELSE f, [c \in {} |-> 0], ops)

(* Two wildcards of different names in the same place, the same route twice, a malformed template, the same
   catcher twice: no router *)
SamePlace(s, t, k) == /\ k <= Len(s) /\ k <= Len(t) /\ IsWild(s[k]) /\ IsWild(t[k])
                      /\ \A j \in 1..(k - 1) : s[j] = t[j] \/ (IsWild(s[j]) /\ IsWild(t[j]))
Conflict(s, t) == \E k \in 1..Len(s) : SamePlace(s, t, k) /\ s[k] # t[k]
Refused(ops) ==
  LET gs == GroupsOf(ops)
      rs == RoutesOf(ops, gs)
      cs == CatchersOf(ops, gs)
  IN \/ \E i \in 1..Len(rs) : ~GoodTemplate(rs[i].full)
     \/ \E i, j \in 1..Len(rs) : i < j /\ ((rs[i].tmpl = rs[j].tmpl /\ rs[i].m = rs[j].m) \/ Conflict(rs[i].segs, rs[j].segs))
     \/ \E i, j \in 1..Len(cs) : i < j /\ cs[i].g = cs[j].g /\ cs[i].prefix = cs[j].prefix

Compile(ops) ==
  LET gs == GroupsOf(ops)
  IN [routes |-> RoutesOf(ops, gs), catchers |-> CatchersOf(ops, gs), muts |-> MutatorsOf(ops, gs), errs |-> ErrorsOf(ops),
      top |-> OwnMws(ops, 1)]

----------------------------------------------------------------------------
(* Which route: segment by segment, a static segment is preferred for good; a wildcard takes any non-empty one *)
RECURSIVE Walk(_, _, _)
Walk(rs, segs, k) ==
  IF k > Len(segs) THEN {r \in rs : Len(r.segs) = Len(segs)}
  ELSE LET long == {r \in rs : Len(r.segs) >= k}
           fixed == {r \in long : ~IsWild(r.segs[k]) /\ r.segs[k] = segs[k]}
           wild == {r \in long : IsWild(r.segs[k])}
       IN IF fixed # {} THEN Walk(fixed, segs, k + 1)
          ELSE IF segs[k] = <<>> THEN {} ELSE Walk(wild, segs, k + 1)
Matching(c, path) == IF Len(path) = 0 \/ path[1] # 47 THEN {} ELSE Walk(ToSet(c.routes), SegmentsOf(path), 1)
ParamsOf(r, path) ==
  LET ps == SegmentsOf(path)
  IN FoldLeft(LAMBDA a, k : IF IsWild(r.segs[k]) /\ WildName(r.segs[k]) # <<>> THEN Append(a, [k |-> WildName(r.segs[k]), v |-> ps[k]]) ELSE a,
              <<>>, [k \in 1..Len(ps) |-> k])
\* the matching route for the method; HEAD is served by GET's if it has none of its own
RouteFor(ms, m) ==
  LET own == {r \in ms : r.m = m}
      get == {r \in ms : r.m = B("GET")}
  IN IF own # {} THEN own ELSE IF m = B("HEAD") THEN get ELSE {}
\* the catcher with the longest prefix
CatchersFor(c, path) ==
  LET hits == {x \in ToSet(c.catchers) : HasPrefix(path, x.prefix)}
  IN {x \in hits : \A y \in hits : Len(y.prefix) <= Len(x.prefix)}

----------------------------------------------------------------------------
(* What a chain of middlewares around an endpoint does. Middleware kinds: "pass" (calls on), "stop" (answers by
   itself), and the inbuilt ones. The outcome: [calls, resp, ctx, ran], resp = [code, hdrs, body, panics]. *)
MethodName(m) == IF m = <<>> THEN B("Unknown") ELSE m
Answer(code, hdrs, body) == [code |-> code, hdrs |-> hdrs, body |-> body, panics |-> FALSE]
Call(k, i) == [k |-> k, id |-> i]
HostOnly(v) == CutL(v, 58)
RECURSIVE Around(_, _, _, _, _)
Around(chain, n, q, end, ctx) ==
  IF n > Len(chain)
  THEN [calls |-> <<Call(end.k, end.id)>>, ctx |-> ctx, ran |-> TRUE, logs |-> <<>>,
        resp |-> IF end.sc.panics THEN [Answer(0, <<>>, <<>>) EXCEPT !.panics = TRUE]
                 ELSE IF end.sc.none THEN Answer(200, <<>>, <<>>) ELSE Answer(end.sc.code, <<>>, end.sc.body)]
  ELSE LET w == chain[n]
           rest == Around(chain, n + 1, q, end, IF w.kind = "ctx" THEN w.id ELSE ctx)
           here(r) == [calls |-> <<>>, ctx |-> 0, ran |-> FALSE, logs |-> <<>>, resp |-> r]
       IN CASE w.kind = "pass" -> [rest EXCEPT !.calls = <<Call("in", w.id)>> \o @ \o (IF rest.resp.panics THEN <<>> ELSE <<Call("out", w.id)>>)]
            [] w.kind = "stop" -> [here(Answer(299, <<>>, <<>>)) EXCEPT !.calls = <<Call("in", w.id)>>]
            [] w.kind = "ctx" -> rest
            [] w.kind = "recover" -> IF rest.resp.panics THEN [rest EXCEPT !.resp = [Answer(500, <<>>, <<>>) EXCEPT !.body = B("any")]] ELSE rest
            [] w.kind = "server" -> IF rest.resp.panics THEN rest
                                    ELSE [rest EXCEPT !.resp.hdrs = Append(@, [k |-> B("Server"), v |-> w.a])]
            [] w.kind = "log" -> IF rest.resp.panics \/ rest.resp.code = 439 THEN rest
                                 ELSE [rest EXCEPT !.logs = @ \o [x \in 1..(1 + Len(w.a)) |-> MethodName(q.m) \o <<32>> \o Escape(q.path) \o <<32>> \o Dec(rest.resp.code)]]
            [] w.kind = "redirect" -> IF NormPath(q.path) = NormPath(w.a) THEN here(Answer(307, <<[k |-> B("Location"), v |-> w.b]>>, <<>>)) ELSE rest
            [] w.kind = "https" ->
                 IF ~q.plain THEN rest
                 ELSE LET hs == KVValues(q.hdrs, B("host"))
                          host == IF w.a # <<>> THEN w.a ELSE IF hs = <<>> THEN <<>> ELSE HostOnly(hs[1])
                      IN IF host = <<>> THEN here([Answer(400, <<>>, <<>>) EXCEPT !.body = B("any")])
                         ELSE here(Answer(301, <<[k |-> B("https"), v |-> <<host, w.b, IF q.alias # <<>> THEN q.alias ELSE q.path>>]>>, <<>>))

----------------------------------------------------------------------------
(* A request through the router. The outcome adds who answered and what it could see. *)
Mutated(c, q) ==
  FoldLeft(LAMBDA a, u :
     IF u.kind = "alias" THEN (IF NormPath(a.q.path) = NormPath(u.from)
                               THEN [a EXCEPT !.q.path = u.to, !.q.alias = IF @ = <<>> THEN u.from ELSE @] ELSE a)
     ELSE IF u.kind = "logm" THEN [a EXCEPT !.logs = Append(@, MethodName(a.q.m) \o <<32>> \o Escape(a.q.path))]
     ELSE IF u.kind = "setpath" THEN [a EXCEPT !.calls = Append(@, Call("mut", u.id)), !.q.path = u.to]
     ELSE [a EXCEPT !.calls = Append(@, Call("mut", u.id))],
     [q |-> q, calls |-> <<>>, logs |-> <<>>], c.muts)

Finish(mu, q, r, params, errid, allow) ==
  [calls |-> mu.calls \o r.calls, logs |-> mu.logs \o r.logs, resp |-> r.resp, ran |-> r.ran, ctx |-> r.ctx, echo |-> FALSE,
   path |-> q.path, alias |-> q.alias, params |-> params, err |-> errid, allow |-> allow, oops |-> FALSE]

NoScript(code) == [code |-> code, body |-> B("any"), none |-> FALSE, panics |-> FALSE]
\* err = [name, code]: a status error; name is what distinguishes "NotFound" from other errors of the code
OnErr(c, mu, q, err, allow) ==
  LET cs == CatchersFor(c, q.path)
      h == IF err.code \in DOMAIN c.errs THEN err.code ELSE IF err.code # 405 /\ 0 \in DOMAIN c.errs THEN 0 ELSE -1
      dflt == [Around(c.top, 1, q, [k |-> "dflt", id |-> 0, sc |-> NoScript(err.code)], 0) EXCEPT !.calls = SelectSeq(@, LAMBDA x : x.k # "dflt")]
      withAllow == IF err.code = 405 /\ dflt.ran THEN [dflt EXCEPT !.resp.hdrs = <<[k |-> B("Allow"), v |-> allow]>> \o @] ELSE dflt
  IN CASE err.name = "MethodNotAllowed" /\ q.m = B("TRACE") ->
            {[Finish(mu, q, [calls |-> <<>>, logs |-> <<>>, ctx |-> 0, ran |-> FALSE, resp |-> Answer(200, <<>>, <<>>)], <<>>, "", allow) EXCEPT !.echo = TRUE]}
       [] err.name = "NotFound" /\ cs # {} ->
            {Finish(mu, q, Around(x.chain, 1, q, [k |-> "catch", id |-> x.id, sc |-> x.sc], 0), <<>>, "", allow) : x \in cs}
       [] err.code = 0 ->
            {Finish(mu, q, [calls |-> <<>>, logs |-> <<>>, ctx |-> 0, ran |-> FALSE, resp |-> Answer(500, <<>>, <<>>)], <<>>, "", allow)}
       [] h >= 0 -> {Finish(mu, q, Around(c.top, 1, q, [k |-> "err", id |-> c.errs[h].id, sc |-> c.errs[h].sc], 0), <<>>, err.name, allow)}
       [] OTHER -> {Finish(mu, q, [withAllow EXCEPT !.ran = FALSE], <<>>, err.name, allow)}

OnReq(c, q0) ==
  LET mu == Mutated(c, q0)
      q == [mu.q EXCEPT !.path = NormPath(@)]
      ms == Matching(c, q.path)
      allow == {r.m : r \in ms}
      rt == RouteFor(ms, q.m)
  IN IF ms = {} THEN OnErr(c, mu, q, [name |-> "NotFound", code |-> 404], {})
     ELSE IF rt = {} THEN {[x EXCEPT !.params = ParamsOf(CHOOSE r \in ms : TRUE, q.path)] :
                              x \in OnErr(c, mu, q, [name |-> "MethodNotAllowed", code |-> 405], allow)}
     ELSE {Finish(mu, q, Around(r.chain, 1, q, [k |-> "route", id |-> r.id, sc |-> r.sc], 0), ParamsOf(r, q.path), "", allow) : r \in rt}
OnError(c, q0, err) == LET mu == Mutated(c, q0) IN OnErr(c, mu, mu.q, err, {})

----------------------------------------------------------------------------
(* Judging what was observed *)
ListOf(v) == LET p == Split(v, 44) IN [n \in 1..Len(p) |-> TrimSpace(p[n])]
ListsExactly(v, S) == LET l == ListOf(v) IN IF S = {} THEN l = <<<<>>>> ELSE ToSet(l) = S /\ Len(l) = Cardinality(S)
\* the redirect: https, the host (and port), and a path that decodes to the wanted one and is safe in a header
HttpsTo(v, host, port, path) ==
  LET fits(p) == HasPrefix(v, p) /\ LET rest == From(v, Len(p) + 1) IN
                   /\ Decode(rest) = [ok |-> TRUE, out |-> path]
                   /\ \A n \in 1..Len(rest) : rest[n] > 32 /\ rest[n] < 127 /\ rest[n] \notin {63, 35}
  IN IF port = <<>> THEN fits(B("https://") \o host) \/ fits(B("https://") \o host \o B(":"))
     ELSE fits(B("https://") \o host \o B(":") \o port)
HeaderFits(o, w) ==
  CASE w.k = B("Allow") -> EqFold(o.k, w.k) /\ ListsExactly(o.v, w.v)
    [] w.k = B("https") -> EqFold(o.k, B("Location")) /\ HttpsTo(o.v, w.v[1], w.v[2], w.v[3])
    [] OTHER -> EqFold(o.k, w.k) /\ o.v = w.v
\* a TRACE echo is the request as it was understood
EchoOf(q, hdrs) == q.m \o <<32>> \o q.path \o (IF q.query = <<>> THEN <<>> ELSE <<63>> \o q.query) \o B(" HTTP/1.1") \o CRLF
                   \o FoldLeft(LAMBDA a, p : a \o p.k \o B(": ") \o p.v \o CRLF, <<>>, hdrs)
EchoFits(body, q) == LET e == EchoOf(q, q.hdrs) IN body = e \o CRLF \/ body = e \o B("Content-Length: 0") \o CRLF \o CRLF

RespFits(e, x, q) ==
  IF x.resp.panics THEN e.panicked
  ELSE /\ ~e.panicked
       /\ e.code = x.resp.code
       /\ IF x.echo THEN EchoFits(e.body, [q EXCEPT !.path = x.path])
          ELSE /\ Len(e.hdrs) = Len(x.resp.hdrs)
               /\ \A n \in 1..Len(e.hdrs) : HeaderFits(e.hdrs[n], x.resp.hdrs[n])
               /\ x.resp.body = B("any") \/ e.body = x.resp.body
SightFits(e, x) ==
  x.ran => /\ e.snap.path = x.path
           /\ NormPath(e.snap.alias) = NormPath(x.alias)
           /\ e.snap.params = x.params
           /\ e.snap.err = x.err
           /\ ListsExactly(e.snap.allow, x.allow)
           /\ e.snap.ctx = x.ctx
Fits(e, x, q) == /\ e.calls = x.calls
                 /\ RespFits(e, x, q)
                 /\ x.resp.panics \/ e.logs = x.logs
                 /\ SightFits(e, x)

----------------------------------------------------------------------------
(* Virtual hosts. regs: registrations [host, id] in order (host "" with def TRUE: Default) *)
DefaultOf(regs) ==
  FoldLeft(LAMBDA a, r : IF r.def \/ TrimPort(NormHost(r.host)) = B("0.0.0.0") THEN r.id ELSE a, 0, regs)
HostsOf(regs) == SelectSeq(regs, LAMBDA r : ~(r.def \/ TrimPort(NormHost(r.host)) = B("0.0.0.0")))
Served(id) == [id |-> id, code |-> 0]
Denied(code) == [id |-> 0, code |-> code]
VHost(regs, hosts) ==
  LET def == DefaultOf(regs)
      hs == HostsOf(regs)
      n == SelectInSeq(hs, LAMBDA r : EqFold(NormHost(r.host), NormHost(hosts[1])))
  IN CASE Len(hosts) = 0 -> IF def # 0 THEN Served(def) ELSE Denied(400)
       [] Len(hosts) > 1 -> Denied(400)
       [] OTHER -> IF n # 0 THEN Served(hs[n].id) ELSE IF def # 0 THEN Served(def) ELSE Denied(421)

=============================================================================
