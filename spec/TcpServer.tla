----------------------------- MODULE TcpServer -----------------------------
(* The accept loop of one listener and the life of its connections (C14), at the granularity at which the
   implementation's goroutines interleave.

   Environment: connections arrive at the listener, handlers are told to finish, the server is paused,
   stopped, awaited, the listener fails. Server: the loop takes a connection, accounts it (unless the
   server is being shut down, then it is refused), a goroutine per connection runs the handler, closes
   the connection and signs it off. *)
EXTENDS Bytes

CONSTANTS Conns, MaxActs, HasDeadline, GuardedTrack
VARIABLES cst,      \* connection -> "none" | "queued" | "taken" | "out" | "handling" | "returned" | "closed" | "refused" | "signed"
          lqueue,   \* what the listener will hand out: connections, or 0 for a failure
          loop,     \* "new" (not started yet) | "accept" | "taken" | "track" | "done"
          slow,     \* connections whose hand-out is delayed by the listener
          cur,      \* the connection the loop holds
          shut, lclosed, lexpired,
          fin,      \* connections whose handlers were told to finish
          waits,    \* number of Wait calls in progress; since when shut
          waited,   \* a Wait that began after the shutdown has returned
          acts
vars == <<cst, lqueue, loop, cur, shut, lclosed, lexpired, fin, waits, waited, slow, acts>>

TcpInit == /\ cst = [c \in Conns |-> "none"] /\ lqueue = <<>> /\ loop \in {"accept", "new"} /\ cur = 0
           /\ shut = FALSE /\ lclosed = FALSE /\ lexpired = FALSE /\ fin = {} /\ waits = 0 /\ waited = FALSE
           /\ acts = <<>> /\ slow = {}

Act(a, c) == Len(acts) < MaxActs /\ acts' = Append(acts, [A |-> a, C |-> c])
Connect(c) == /\ cst[c] = "none" /\ (IF c = 1 THEN TRUE ELSE cst[c - 1] # "none")
              /\ cst' = [cst EXCEPT ![c] = "queued"] /\ lqueue' = Append(lqueue, c) /\ Act("connect", c)
              /\ UNCHANGED <<loop, cur, shut, lclosed, lexpired, fin, waits, waited, slow>>
\* a connection whose hand-out takes its time: the listener has it, the server does not have it yet
Slow(c) == /\ cst[c] = "none" /\ (IF c = 1 THEN TRUE ELSE cst[c - 1] # "none") /\ slow' = slow \cup {c}
           /\ cst' = [cst EXCEPT ![c] = "queued"] /\ lqueue' = Append(lqueue, c) /\ Act("slow", c)
           /\ UNCHANGED <<loop, cur, shut, lclosed, lexpired, fin, waits, waited>>
Release(c) == /\ c \in slow /\ slow' = slow \ {c} /\ Act("release", c)
              /\ UNCHANGED <<cst, lqueue, loop, cur, shut, lclosed, lexpired, fin, waits, waited>>
Fail == /\ lqueue' = Append(lqueue, 0) /\ ~(\E n \in 1..Len(acts) : acts[n].A = "fail") /\ Act("fail", 0)
        /\ UNCHANGED <<cst, loop, cur, shut, lclosed, lexpired, fin, waits, waited, slow>>
Finish(c) == /\ cst[c] # "none" /\ c \notin fin /\ fin' = fin \cup {c} /\ Act("finish", c)
             /\ UNCHANGED <<cst, lqueue, loop, cur, shut, lclosed, lexpired, waits, waited, slow>>
Pause == /\ shut' = TRUE /\ lexpired' = (lexpired \/ HasDeadline) /\ Act("pause", 0)
         /\ UNCHANGED <<cst, lqueue, loop, cur, lclosed, fin, waits, waited, slow>>
Stop == /\ shut' = TRUE /\ lclosed' = TRUE /\ Act("stop", 0)
        /\ UNCHANGED <<cst, lqueue, loop, cur, lexpired, fin, waits, waited, slow>>
Wait == /\ waits = 0 /\ shut /\ waits' = (IF shut THEN 2 ELSE 1) /\ Act("wait", 0)
        /\ UNCHANGED <<cst, lqueue, loop, cur, shut, lclosed, lexpired, fin, waited, slow>>

\* the server may be started after it was paused or stopped already: it ends at once then
Start == /\ loop = "new" /\ loop' = (IF shut THEN "done" ELSE "accept") /\ Act("start", 0)
         /\ UNCHANGED <<cst, lqueue, cur, shut, lclosed, lexpired, fin, waits, waited, slow>>

\* the server's own steps
Accept == /\ loop = "accept" /\ lqueue # <<>> /\ ~lclosed /\ ~lexpired
          /\ lqueue' = Tail(lqueue)
          /\ IF Head(lqueue) = 0 THEN /\ loop' = "done" /\ UNCHANGED <<cst, cur>>
             ELSE /\ loop' = "taken" /\ cur' = Head(lqueue) /\ cst' = [cst EXCEPT ![Head(lqueue)] = "taken"]
          /\ UNCHANGED <<shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
HandOut == /\ loop = "taken" /\ cur \notin slow /\ loop' = "track" /\ cst' = [cst EXCEPT ![cur] = "out"]
           /\ UNCHANGED <<lqueue, cur, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
AcceptErr == /\ loop = "accept" /\ (lclosed \/ lexpired) /\ loop' = "done"
             /\ UNCHANGED <<cst, lqueue, cur, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
Track == /\ loop = "track"
         /\ IF GuardedTrack /\ shut
            THEN cst' = [cst EXCEPT ![cur] = "refused"] /\ loop' = "done"
            ELSE cst' = [cst EXCEPT ![cur] = "handling"] /\ loop' = (IF shut THEN "done" ELSE "accept")
         /\ cur' = 0
         /\ UNCHANGED <<lqueue, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
Return(c) == /\ cst[c] = "handling" /\ c \in fin /\ cst' = [cst EXCEPT ![c] = "returned"]
             /\ UNCHANGED <<lqueue, loop, cur, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
Close(c) == /\ cst[c] = "returned" /\ cst' = [cst EXCEPT ![c] = "closed"]
            /\ UNCHANGED <<lqueue, loop, cur, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
SignOff(c) == /\ cst[c] = "closed" /\ cst' = [cst EXCEPT ![c] = "signed"]
              /\ UNCHANGED <<lqueue, loop, cur, shut, lclosed, lexpired, fin, waits, waited, acts, slow>>
Busy == {c \in Conns : cst[c] \in {"handling", "returned", "closed"}}
WaitRet == /\ waits > 0 /\ Busy = {} /\ waits' = 0 /\ waited' = (waited \/ waits = 2)
           /\ UNCHANGED <<cst, lqueue, loop, cur, shut, lclosed, lexpired, fin, acts, slow>>

Env == (\E c \in Conns : Connect(c) \/ Slow(c) \/ Release(c) \/ Finish(c)) \/ Fail \/ Pause \/ Stop \/ Wait \/ Start
Srv == Accept \/ HandOut \/ AcceptErr \/ Track \/ (\E c \in Conns : Return(c) \/ Close(c) \/ SignOff(c)) \/ WaitRet
TcpNext == Env \/ Srv

\* C14: once a wait that began after pause/stop returned, nothing is being handled and nothing will be
NothingAfterWait == waited => Busy = {}
Once == \A c \in Conns : cst[c] \in {"handling", "returned"} => c # cur
=============================================================================
