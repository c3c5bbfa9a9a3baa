------------------------------ MODULE TraceApp ------------------------------
(* What may be observed of an application's life: binds, hooks, hand-outs, handler entries and exits, closes of
   connections and of listeners, returns of the stop requests and of Serve. "settle": nothing more can happen by
   itself. The trace's header says how many listeners there are (lis), and whose accepts are interruptible (dl). *)
EXTENDS TraceBase

MStInit(tr) == [cs |-> <<>>, own |-> <<>>, fin |-> {}, open |-> {}, closed |-> {}, nbind |-> 0,
                causes |-> {}, locked |-> {}, late |-> {}, pend |-> 0, started |-> FALSE, hook |-> FALSE, ret |-> FALSE, err |-> ""]
Ph(s, c) == IF c \in DOMAIN s.cs THEN s.cs[c] ELSE "none"
Put(s, c, p) == [s EXCEPT !.cs = (c :> p) @@ @]
In(s, ps) == {c \in DOMAIN s.cs : s.cs[c] \in ps}
Need(cond, s, s2, why) == IF cond THEN Accept(s2) ELSE Refuse(s, why)
Possible(s) == IF s.locked # {} THEN s.locked ELSE s.causes
OnlyGraceful(s) == Possible(s) = {"graceful"}

MApply(tr, s, e) ==
  CASE e.op = "bind" -> \* Listen is called for every address in order; nothing is bound after a failure or once serving
         Need(~s.started /\ s.err = "" /\ e.l = Cardinality(s.open) + 1, s,
              IF e.ok THEN [s EXCEPT !.open = @ \cup {e.l}] ELSE [s EXCEPT !.err = "bind"], "bound out of order, or after a failed bind")
    [] e.op = "bindhook" -> Need(e.l = s.nbind + 1 /\ e.l \in s.open /\ e.addr = tr.addrs[e.l], s, [s EXCEPT !.nbind = @ + 1],
                                 "the bind hook is called once for every bound address, in order")
    [] e.op = "start" -> Need(~s.started /\ Cardinality(s.open) = tr.lis /\ s.nbind = tr.lis, s, [s EXCEPT !.started = TRUE], "started before all was bound")
    [] e.op = "connect" -> Accept([Put(s, e.c, "queued") EXCEPT !.own = (e.c :> e.l) @@ @,
                                   !.late = IF s.locked # {} THEN @ \cup {e.c} ELSE @])
    [] e.op = "finish" -> Accept([s EXCEPT !.fin = @ \cup {e.c}])
    [] e.op = "ask" -> Accept([s EXCEPT !.causes = IF s.ret THEN @ ELSE @ \cup {e.what}, !.pend = @ + 1])
    [] e.op = "asked" -> Accept([s EXCEPT !.pend = @ - 1])
    [] e.op = "accept" -> Need(Ph(s, e.c) = "queued", s, Put(s, e.c, "out"), "handed out twice")
    [] e.op = "lerr" -> Accept([s EXCEPT !.causes = @ \cup {e.err}])
    [] e.op = "handle" -> Need(Ph(s, e.c) = "out" /\ e.c \notin s.late /\ ~s.hook /\ ~s.ret /\ e.h = s.own[e.c], s, Put(s, e.c, "handling"),
                               "handled twice, by another listener's handler, or after the stop")
    [] e.op = "hret" -> Need(Ph(s, e.c) = "handling" /\ e.c \in s.fin, s, Put(s, e.c, "returned"), "handler cannot return")
    [] e.op = "close" -> Need(Ph(s, e.c) = "returned" \/ (Ph(s, e.c) = "out" /\ s.causes # {}), s, Put(s, e.c, "closed"),
                              "a connection is closed while it is handled, closed twice, or refused although nobody stopped the application")
    [] e.op = "lclose" -> Need(s.err = "bind" \/ (s.causes # {} /\ (OnlyGraceful(s) => In(s, {"handling", "returned"}) = {})), s,
                               [s EXCEPT !.closed = @ \cup {e.l}], "a socket is closed for no reason, or before the clients of a graceful stop were done")
    [] e.op = "stophook" -> Need(s.started /\ ~s.hook /\ ~s.ret /\ s.causes # {} /\ In(s, {"handling", "returned"}) = {} /\ s.closed = s.open, s,
                                 [s EXCEPT !.hook = TRUE], "the stop hook runs once, after every connection and socket was closed")
    [] e.op = "serveret" ->
         Need(/\ ~s.ret /\ s.closed = s.open /\ In(s, {"handling", "returned"}) = {}
              /\ IF s.err = "bind" THEN e.err = "bind" /\ ~s.started /\ ~s.hook ELSE s.hook /\ e.err \in Possible(s), s,
              [s EXCEPT !.ret = TRUE], [why |-> "Serve returns the first cause, after the teardown", causes |-> Possible(s)])
    [] e.op = "socks" -> Need(e.n = 0, s, s, "sockets left open")
    [] e.op = "settle" ->
         LET s2 == IF s.locked = {} /\ s.causes # {} THEN [s EXCEPT !.locked = s.causes] ELSE s
             busy == In(s, {"handling"})
             done == s.ret
         IN Need(/\ s.pend = 0
                 /\ In(s, {"out", "returned"}) = {}
                 /\ \A c \in busy : c \notin s.fin
                 /\ (s.err = "bind" => done)
                 /\ (s.causes = {} /\ s.err = "" => s.started /\ ~done /\ In(s, {"queued"}) = {} /\ s.closed = {})
                 /\ (s.causes # {} /\ busy = {} => done)
                 /\ (s.causes # {} /\ "graceful" \notin s.causes => s.closed = s.open),
                 s, s2, "at rest: a connection is not served, a stop request blocks, or the teardown is not complete")
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
