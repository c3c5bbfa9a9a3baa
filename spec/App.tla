-------------------------------- MODULE App --------------------------------
(* The life of an application (C12, C13): binding its listeners, serving, the first cause to stop
   (a request or a failing listener), and the teardown, interleaved with the connections' lives.

   The main thread goes through
     bind 1..n -> start the accept loops -> start hook -> select a cause ->
     [graceful: pause every server, await every server] -> stop every server -> await every server ->
     stop hook -> return the cause.
   Each listener's accept loop and each connection's goroutine run concurrently with it. *)
EXTENDS Bytes

CONSTANTS NL,          \* number of listeners
          NC,          \* number of connections
          MaxActs,
          Interruptible,   \* set of listeners whose accepts can be interrupted by a deadline
          BindFails,   \* listener whose address cannot be bound, 0 if none
          Graceful     \* TRUE: histories whose first cause is a graceful stop; FALSE: the others

VARIABLES mainPc, mainIx,    \* the main thread: phase, index of the server it is at
          bound, lclosed, paused, expired,
          loopSt,      \* listener -> "off" | "accept" | "done"
          lqueue,      \* listener -> what it hands out: connections, 0 for a failure
          cst, owner,  \* connection -> phase; connection -> listener
          fin, request, failures, cause, hooks, acts
vars == <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, lqueue, cst, owner, fin, request, failures, cause, hooks, acts>>

L == 1..NL
C == 1..NC
AppInit == /\ mainPc = "bind" /\ mainIx = 1 /\ bound = {} /\ lclosed = {} /\ paused = {} /\ expired = {}
           /\ loopSt = [l \in L |-> "off"] /\ lqueue = [l \in L |-> <<>>]
           /\ cst = [c \in C |-> "none"] /\ owner = [c \in C |-> 0] /\ fin = {}
           /\ request = <<>> /\ failures = <<>> /\ cause = "" /\ hooks = <<>> /\ acts = <<>>

\* ---- the environment (requests are made while serving; every kind of them may be repeated)
Env(a, k) == mainPc # "bind" /\ Len(acts) < MaxActs /\ acts' = Append(acts, [A |-> a, K |-> k, L |-> 0])
FirstOk(a) == \* the histories of interest differ in the kind of their first cause
   LET stops == {n \in 1..Len(acts) : acts[n].A \in {"gstop", "stop", "fail"}}
   IN IF stops = {} THEN (a = "gstop") = Graceful ELSE TRUE
Connect(c, l) ==
   /\ cst[c] = "none" /\ (IF c = 1 THEN TRUE ELSE cst[c - 1] # "none")
   /\ mainPc # "bind" /\ Len(acts) < MaxActs /\ acts' = Append(acts, [A |-> "connect", K |-> c, L |-> l])
   /\ cst' = [cst EXCEPT ![c] = "queued"] /\ owner' = [owner EXCEPT ![c] = l] /\ lqueue' = [lqueue EXCEPT ![l] = Append(@, c)]
   /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, fin, request, failures, cause, hooks>>
Finish(c) == /\ cst[c] # "none" /\ c \notin fin /\ fin' = fin \cup {c} /\ Env("finish", c)
             /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, lqueue, cst, owner, request, failures, cause, hooks>>
Ask(a, name) == /\ FirstOk(a) /\ Env(a, 0)
                /\ request' = IF request = <<>> THEN <<name>> ELSE request    \* never blocks: one pending request is enough
                /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, lqueue, cst, owner, fin, failures, cause, hooks>>
FailL(l) == /\ FirstOk("fail") /\ Env("fail", l) /\ lqueue' = [lqueue EXCEPT ![l] = Append(@, 0)]
            /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, cst, owner, fin, request, failures, cause, hooks>>
EnvNext == (\E c \in C, l \in L : Connect(c, l)) \/ (\E c \in C : Finish(c)) \/ Ask("gstop", "graceful") \/ Ask("stop", "shutdown")
           \/ (\E l \in L : FailL(l))

\* ---- accept loops and connections
Accept(l) == /\ loopSt[l] = "accept" /\ l \notin lclosed /\ l \notin expired /\ lqueue[l] # <<>>
             /\ lqueue' = [lqueue EXCEPT ![l] = Tail(@)]
             /\ IF Head(lqueue[l]) = 0
                THEN /\ loopSt' = [loopSt EXCEPT ![l] = "done"] /\ failures' = Append(failures, "fail") /\ UNCHANGED cst
                ELSE /\ cst' = [cst EXCEPT ![Head(lqueue[l])] = IF l \in paused THEN "refused" ELSE "handling"]
                     /\ loopSt' = [loopSt EXCEPT ![l] = IF l \in paused THEN "done" ELSE "accept"] /\ UNCHANGED failures
             /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, owner, fin, request, cause, hooks, acts>>
AcceptErr(l) == /\ loopSt[l] = "accept" /\ (l \in lclosed \/ l \in expired) /\ loopSt' = [loopSt EXCEPT ![l] = "done"]
                /\ failures' = Append(failures, "interrupted")
                /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, lqueue, cst, owner, fin, request, cause, hooks, acts>>
Close(c) == /\ cst[c] = "handling" /\ c \in fin /\ cst' = [cst EXCEPT ![c] = "closed"]
            /\ UNCHANGED <<mainPc, mainIx, bound, lclosed, paused, expired, loopSt, lqueue, owner, fin, request, failures, cause, hooks, acts>>

\* ---- the main thread
Same == UNCHANGED <<lqueue, owner, fin, acts>>
Bind == /\ mainPc = "bind"
        /\ IF mainIx = BindFails
           THEN mainPc' = "unbind" /\ mainIx' = 1 /\ cause' = "bind" /\ UNCHANGED <<bound, hooks>>
           ELSE /\ bound' = bound \cup {mainIx} /\ hooks' = Append(hooks, "bind") /\ UNCHANGED cause
                /\ IF mainIx = NL THEN mainPc' = "start" /\ mainIx' = 0 ELSE mainPc' = "bind" /\ mainIx' = mainIx + 1
        /\ UNCHANGED <<lclosed, paused, expired, loopSt, cst, request, failures>> /\ Same
Unbind == /\ mainPc = "unbind" /\ lclosed' = bound /\ mainPc' = "returned"
          /\ UNCHANGED <<mainIx, bound, paused, expired, loopSt, cst, request, failures, cause, hooks>> /\ Same
Start == /\ mainPc = "start" /\ loopSt' = [l \in L |-> "accept"] /\ hooks' = Append(hooks, "start") /\ mainPc' = "select"
         /\ UNCHANGED <<mainIx, bound, lclosed, paused, expired, cst, request, failures, cause>> /\ Same
Select == /\ mainPc = "select"
          /\ \/ request # <<>> /\ cause' = request[1] /\ request' = <<>> /\ UNCHANGED failures
             \/ failures # <<>> /\ cause' = failures[1] /\ failures' = Tail(failures) /\ UNCHANGED request
          /\ mainPc' = (IF cause' = "graceful" THEN "pause" ELSE "stop") /\ mainIx' = 1
          /\ UNCHANGED <<bound, lclosed, paused, expired, loopSt, cst, hooks>> /\ Same
Busy(l) == \E c \in C : owner[c] = l /\ cst[c] = "handling"
Step(to) == IF mainIx = NL THEN mainPc' = to /\ mainIx' = 1 ELSE mainPc' = mainPc /\ mainIx' = mainIx + 1
Pause == /\ mainPc = "pause" /\ paused' = paused \cup {mainIx}
         /\ expired' = (IF mainIx \in Interruptible THEN expired \cup {mainIx} ELSE expired) /\ Step("await1")
         /\ UNCHANGED <<bound, lclosed, loopSt, cst, request, failures, cause, hooks>> /\ Same
Await1 == /\ mainPc = "await1" /\ ~Busy(mainIx) /\ Step("stop")
          /\ UNCHANGED <<bound, lclosed, paused, expired, loopSt, cst, request, failures, cause, hooks>> /\ Same
Stop == /\ mainPc = "stop" /\ paused' = paused \cup {mainIx} /\ lclosed' = lclosed \cup {mainIx} /\ Step("await2")
        /\ UNCHANGED <<bound, expired, loopSt, cst, request, failures, cause, hooks>> /\ Same
Await2 == /\ mainPc = "await2" /\ ~Busy(mainIx) /\ Step("hook")
          /\ UNCHANGED <<bound, lclosed, paused, expired, loopSt, cst, request, failures, cause, hooks>> /\ Same
Hook == /\ mainPc = "hook" /\ hooks' = Append(hooks, "stop") /\ mainPc' = "returned" /\ request' = <<>>
        /\ UNCHANGED <<mainIx, bound, lclosed, paused, expired, loopSt, cst, failures, cause>> /\ Same
SrvNext == (\E l \in L : Accept(l) \/ AcceptErr(l)) \/ (\E c \in C : Close(c))
           \/ Bind \/ Unbind \/ Start \/ Select \/ Pause \/ Await1 \/ Stop \/ Await2 \/ Hook
AppNext == EnvNext \/ SrvNext

\* ---- C12, C13
HandlingNow == {c \in C : cst[c] = "handling"}
ClosedAtReturn == mainPc = "returned" => lclosed = bound
NothingAfterHook == (Len(hooks) > 0 /\ hooks[Len(hooks)] = "stop") => HandlingNow = {}
HookOnce == Cardinality({n \in 1..Len(hooks) : hooks[n] = "stop"}) = (IF mainPc = "returned" /\ cause # "bind" THEN 1 ELSE 0)
GracefulServes == (cause = "graceful" /\ lclosed # {}) => HandlingNow = {}
RightCause == cause # "" => IF cause = "bind" THEN BindFails # 0
                            ELSE cause \in {"graceful", "shutdown", "fail"}
\* no stuck teardown: when the system itself can do nothing more, everything asked for has happened
NoStuckTeardown == (~ENABLED SrvNext /\ (request # <<>> \/ failures # <<>> \/ cause # "")) => (mainPc = "returned" \/ HandlingNow # {})
=============================================================================
