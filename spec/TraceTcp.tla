------------------------------ MODULE TraceTcp ------------------------------
(* What may be observed of a TCP server: the order of hand-outs, handler entries and exits, closes, and
   the returns of Start, Pause, Stop and Wait. At a "settle" nothing more can happen by itself. *)
EXTENDS TraceBase

\* cs: connection -> phase; 0 handlers are never entered twice because phases only advance
MStInit(tr) == [started |-> FALSE, gret |-> {}, gclosed |-> {}, gerr |-> <<>>, gdone |-> FALSE, cs |-> <<>>, fin |-> {}, lerr |-> "", ret |-> FALSE,
                shut |-> FALSE, held |-> {}, shutDone |-> FALSE, stopped |-> FALSE, waits |-> 0, lateWait |-> FALSE, waited |-> FALSE]
Ph(s, c) == IF c \in DOMAIN s.cs THEN s.cs[c] ELSE "none"
Put(s, c, p) == [s EXCEPT !.cs = (c :> p) @@ @]
In(s, ps) == {c \in DOMAIN s.cs : s.cs[c] \in ps}
Need(cond, s, s2, why) == IF cond THEN Accept(s2) ELSE Refuse(s, why)

MApply(tr, s, e) ==
  CASE e.op = "connect" -> Need(Ph(s, e.c) = "none", s, Put(s, e.c, "queued"), "connected twice")
    [] e.op = "start" -> Accept([s EXCEPT !.started = TRUE])
    [] e.op = "fail" -> Accept(s)
    [] e.op = "finish" -> Accept([s EXCEPT !.fin = @ \cup {e.c}])
    [] e.op \in {"pause", "stop"} -> Accept([s EXCEPT !.shut = TRUE, !.stopped = @ \/ e.op = "stop"])
    [] e.op \in {"pauseDone", "stopDone"} -> Accept([s EXCEPT !.shutDone = TRUE])
    [] e.op = "wait" -> Accept([s EXCEPT !.waits = @ + 1, !.lateWait = @ \/ s.shutDone])
    [] e.op = "waitDone" ->
         \* of several waits in progress it is unknown which one returned: the verdict is given when all
         \* of them had begun after the shutdown, or all are back
         LET known == s.shutDone /\ s.lateWait /\ s.waits = 1
         IN Need(known => In(s, {"handling", "returned", "closing"}) = {}, s,
                 [s EXCEPT !.waits = @ - 1, !.waited = @ \/ known], "Wait returned before every handled connection was closed")
    [] e.op = "accept" -> Need(Ph(s, e.c) = "queued", s, Put(s, e.c, "out"), "handed out twice")
    [] e.op = "hold" -> Accept([s EXCEPT !.held = @ \cup {e.c}])
    [] e.op = "unhold" -> Accept([s EXCEPT !.held = @ \ {e.c}])
    [] e.op = "lerr" -> Accept([s EXCEPT !.lerr = e.err])
    [] e.op = "handle" -> Need(Ph(s, e.c) = "out" /\ ~s.waited, s, Put(s, e.c, "handling"),
                               "handled twice, or handled after waiting for the paused/stopped server had returned")
    [] e.op = "hret" -> Need(Ph(s, e.c) = "handling" /\ e.c \in s.fin, s, Put(s, e.c, "returned"), "handler cannot return")
    \* (closing a served connection may take its time: the driver lets it go at rest)
    [] e.op = "closing" -> Need(Ph(s, e.c) = "returned", s, Put(s, e.c, "closing"), "closed while it is handled, or closed twice")
    [] e.op = "close" -> Need(Ph(s, e.c) \in {"returned", "closing"} \/ (Ph(s, e.c) = "out" /\ s.shut), s, Put(s, e.c, "closed"),
                              "closed while it is handled, closed twice, or refused by a running server")
    [] e.op = "startret" -> Need(~s.ret /\ (IF s.lerr # "" THEN e.err = s.lerr ELSE s.shut), s, [s EXCEPT !.ret = TRUE],
                                 "the accept loop ends only by a listener error (with that error) or by pause/stop")
    [] e.op = "settle" ->
         Need(/\ In(s, {"out", "returned"}) = {}
              /\ \A c \in In(s, {"handling"}) : c \notin s.fin
              /\ (s.held = {} /\ s.started => /\ (s.lerr # "" => s.ret) /\ (s.stopped => s.ret) /\ (s.shut /\ tr.dl => s.ret)
                                  /\ (~s.ret /\ ~s.shut => In(s, {"queued"}) = {}))
              /\ (s.waits > 0 => In(s, {"handling", "closing"}) # {}),
              s, s, "at rest: a connection is not handled, not closed after its handler returned, or a call does not return")
    [] e.op = "end" -> Need(In(s, {"out", "handling", "returned", "closing"}) = {} /\ s.waits = 0 /\ s.ret, s, s,
                            "at the end everything is closed and awaited")
    \* several servers, paused or stopped together: the call comes back when all that was handled by any of them is closed
    [] e.op = "all" -> Accept([s EXCEPT !.shut = TRUE, !.stopped = @ \/ e.stop, !.waits = @ + 1])
    [] e.op = "allDone" -> Need(In(s, {"handling", "returned", "closing"}) = {}, s, [s EXCEPT !.waits = @ - 1, !.waited = TRUE],
                                "the servers were awaited, but a connection is not closed yet")
    [] e.op = "glerr" -> Accept([s EXCEPT !.gerr = (e.s :> e.err) @@ @])
    [] e.op = "glclose" -> Need(s.stopped, s, [s EXCEPT !.gclosed = @ \cup {e.s}], "the listener was closed without a stop")
    [] e.op = "gstartret" -> Need(e.s \notin s.gret /\ (IF e.s \in DOMAIN s.gerr THEN e.err = s.gerr[e.s] ELSE s.shut), s,
                                  [s EXCEPT !.gret = @ \cup {e.s}], "the accept loop ends only by a listener error (with that error) or by pause/stop")
    [] e.op \in {"gsettle", "gend"} ->
         Need(/\ In(s, {"out", "returned"}) = {}
              /\ \A c \in In(s, {"handling"}) : c \notin s.fin
              /\ DOMAIN s.gerr \subseteq s.gret
              /\ (s.stopped => s.gclosed = 1..tr.k)
              /\ (s.stopped \/ (s.shut /\ tr.dl) => s.gret = 1..tr.k)
              /\ (~s.shut /\ s.gret = {} => In(s, {"queued"}) = {})
              /\ (s.waits > 0 => In(s, {"handling", "closing"}) # {})
              /\ (e.op = "gend" => s.waits = 0 /\ In(s, {"handling", "closing"}) = {}),
              s, s, "at rest: a connection is not handled or not closed, a listener is open, or a call does not return")
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
