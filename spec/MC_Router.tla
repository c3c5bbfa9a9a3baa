----------------------------- MODULE MC_Router -----------------------------
(* Registration histories: every sequence of registrations over a small vocabulary, in any order. The declarative
   reading of a history (Compile) is compared with the bottom-up construction the server performs at start
   (prepare), and has to obey the laws below. Every history is a stimulus, with the probing requests of its area. *)
EXTENDS Router, Json
CONSTANTS Area, MaxOps
VARIABLES ops

Sc(n) == [code |-> 200 + n, body |-> <<48 + n>>, none |-> FALSE, panics |-> FALSE]
O(op, g, path) == [op |-> op, g |-> g, path |-> path, m |-> <<>>, id |-> Len(ops) + 1, mws |-> <<>>, codes |-> <<>>, kind |-> "", to |-> <<>>, sc |-> Sc(Len(ops) + 1)]
W(kind, a, b) == [id |-> 10 + Len(ops), kind |-> kind, a |-> a, b |-> b]
Rt(g, m, p) == [O("route", g, B(p)) EXCEPT !.m = B(m)]
Gs == 1..Len(GroupsOf(ops))
Vocabulary ==
  CASE Area = "scope" ->
        UNION {{[O("use", g, <<>>) EXCEPT !.mws = <<W("pass", <<>>, <<>>)>>], Rt(g, "GET", "/r"), [Rt(g, "POST", "/r") EXCEPT !.mws = <<W("pass", <<>>, <<>>)>>],
                O("catch", g, B("/c")), [O("mut", g, <<>>) EXCEPT !.kind = "plain"]} \cup
               (IF Len(GroupsOf(ops)) < 4 THEN {O("group", g, B("/a"))} ELSE {}) : g \in Gs}
    [] Area = "errors" ->
        {O("err", 1, <<>>), [O("err", 1, <<>>) EXCEPT !.codes = <<404>>], [O("err", 1, <<>>) EXCEPT !.codes = <<405, 400>>], [O("err", 1, <<>>) EXCEPT !.codes = <<0, 414>>],
         O("catch", 1, B("/")), O("catch", 1, B("/a")), O("catch", 1, B("/a/b")), O("catch", 1, B("/ab")), Rt(1, "GET", "/a"), Rt(1, "POST", "/a/{x}"),
         [O("use", 1, <<>>) EXCEPT !.mws = <<W("pass", <<>>, <<>>)>>]}
    [] Area = "inbuilt" ->
        {[O("alias", 1, B("/a")) EXCEPT !.to = B("/b")], [O("alias", 1, B("/b/")) EXCEPT !.to = B("/c/")], Rt(1, "GET", "/b"), Rt(1, "GET", "/c"),
         [Rt(1, "GET", "/p") EXCEPT !.sc.panics = TRUE], [Rt(1, "GET", "/n") EXCEPT !.sc.none = TRUE],
         [O("mut", 1, <<>>) EXCEPT !.kind = "logm"], [O("mut", 1, <<>>) EXCEPT !.kind = "setpath", !.to = B("/b/")]} \cup
        {[O("use", 1, <<>>) EXCEPT !.mws = <<w>>] :
           w \in {W("recover", <<>>, <<>>), W("server", B("x"), <<>>), W("log", <<>>, <<>>), W("redirect", B("/b"), B("/z")), W("https", <<>>, <<>>),
                  W("https", B("h"), B("8443")), W("ctx", <<>>, <<>>), W("stop", <<>>, <<>>)}}
Init == ops = <<>>
Next == /\ Len(ops) < MaxOps /\ ~Refused(ops)
        /\ \E o \in Vocabulary : ops' = Append(ops, o)

----------------------------------------------------------------------------
(* what is done at start: children first, each wrapping all that it has collected into its own middlewares *)
RECURSIVE Prepare(_, _)
Prepare(gs, g) ==
  LET own == SelectSeq([n \in 1..Len(ops) |-> [n |-> n, o |-> ops[n], chain |-> ops[n].mws]], LAMBDA x : x.o.op \in {"route", "catch"} /\ x.o.g = g)
      kids == SelectSeq([k \in 1..Len(gs) |-> k], LAMBDA k : gs[k].parent = g)
      all == FoldLeft(LAMBDA a, k : a \o Prepare(gs, k), own, kids)
      mine == OwnMws(ops, g)
  IN [n \in 1..Len(all) |-> [all[n] EXCEPT !.chain = mine \o @]]
Composed ==
  LET gs == GroupsOf(ops)
      pr == Prepare(gs, 1)
      c == Compile(ops)
  IN /\ \A n \in 1..Len(pr) :
           LET x == pr[n]
           IN IF x.o.op = "route" THEN \E k \in 1..Len(c.routes) : c.routes[k].id = x.o.id /\ c.routes[k].chain = x.chain
              ELSE \E k \in 1..Len(c.catchers) : c.catchers[k].id = x.o.id /\ c.catchers[k].chain = x.chain
     /\ Len(pr) = Len(c.routes) + Len(c.catchers)

Rq(m, p) == [m |-> B(m), path |-> B(p), query |-> <<>>, hdrs |-> <<[k |-> B("Host"), v |-> B("e.org:81")]>>, plain |-> Len(ops) % 2 = 0, alias |-> <<>>]
Probes ==
  CASE Area = "scope" -> <<Rq("GET", "/r"), Rq("POST", "/r/"), Rq("HEAD", "/a/r"), Rq("POST", "/a/r"), Rq("GET", "/a/a/r"), Rq("GET", "/c"), Rq("GET", "/a/c/d"), Rq("PUT", "/a/a/r"), Rq("GET", "/x")>>
    [] Area = "errors" -> <<Rq("GET", "/a"), Rq("POST", "/a"), Rq("TRACE", "/a"), Rq("GET", "/abc"), Rq("GET", "/a/b/c"), Rq("GET", "/a/b"), Rq("POST", "/a/q"), Rq("GET", "/x"), Rq("HEAD", "/a/")>>
    [] Area = "inbuilt" -> <<Rq("GET", "/a"), Rq("GET", "/b"), Rq("GET", "/a/"), Rq("GET", "/c"), Rq("GET", "/p"), Rq("GET", "/n"), Rq("GET", "/zz")>>
Fails == <<[name |-> "BadRequest", code |-> 400], [name |-> "NotFound", code |-> 404], [name |-> "MethodNotAllowed", code |-> 405],
           [name |-> "URITooLong", code |-> 414], [name |-> "own404", code |-> 404], [name |-> "plain", code |-> 0]>>
\* registering middlewares last makes no difference, nor does the order of the catchers
UsesLast == SelectSeq(ops, LAMBDA o : o.op # "use") \o SelectSeq(ops, LAMBDA o : o.op = "use")
CatchersTurned == SelectSeq(ops, LAMBDA o : o.op # "catch") \o Reverse(SelectSeq(ops, LAMBDA o : o.op = "catch"))
Bare(xs) == {[x EXCEPT !.logs = <<>>] : x \in xs}
Laws ==
  LET c == Compile(ops)
  IN ~Refused(ops) =>
     \A n \in 1..Len(Probes) :
       LET q == Probes[n]
           xs == OnReq(c, q)
       IN /\ xs # {}
          /\ (Area # "scope" => Cardinality(xs) = 1)
          /\ xs = OnReq(Compile(UsesLast), q)
          /\ xs = OnReq(Compile(CatchersTurned), q)
          /\ Bare(OnReq(c, [q EXCEPT !.path = @ \o B("//")])) = Bare(xs)
          /\ \A x \in xs : \A k \in 1..Len(x.calls) :
               LET y == x.calls[k]
               IN y.k = "route" => \E r \in ToSet(c.routes) : r.id = y.id /\ (r.m = q.m \/ (q.m = B("HEAD") /\ r.m = B("GET")))
\* every middleware that applies runs once; a stopping one keeps the endpoint from running
Once == LET c == Compile(ops)
        IN ~Refused(ops) =>
           \A n \in 1..Len(Probes) : \A x \in OnReq(c, Probes[n]) :
             \A w \in {x.calls[k] : k \in 1..Len(x.calls)} : Cardinality({k \in 1..Len(x.calls) : x.calls[k] = w}) = 1
ErrorLaws == LET c == Compile(ops)
             IN ~Refused(ops) => \A k \in 1..Len(Fails) : \A x \in OnError(c, Probes[1], Fails[k]) :
                  (x.err # "" /\ x.ran) => \E h \in {Fails[k].code, 0} : h \in DOMAIN c.errs /\ \E j \in 1..Len(x.calls) : x.calls[j] = Call("err", c.errs[h].id)

ToReq(q, err) == [M |-> q.m, Path |-> q.path, Query |-> q.query, Hdrs |-> <<[K |-> B("Host"), V |-> B("e.org:81")]>>, Plain |-> q.plain, Err |-> err]
Emit == Len(ops) > 0 =>
  PrintT("STIM " \o ToJson([Ops |-> ops, Reqs |-> [n \in 1..(Len(Probes) + Len(Fails)) |->
      IF n <= Len(Probes) THEN ToReq(Probes[n], "") ELSE ToReq(Probes[1], Fails[n - Len(Probes)].name)]]))
=============================================================================
