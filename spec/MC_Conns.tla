------------------------------ MODULE MC_Conns ------------------------------
(* Interleavings of connections. Each request passes through: the first part of its head arrives, the rest
   arrives and the handler is entered, the handler resumes and replies. Shared = TRUE is a server whose
   connections share the memory a request is kept in: there the property has to fail. *)
EXTENDS Conns, Json
CONSTANTS NC, First, Kinds, Shared
VARIABLES script, pos, stage, store, seen, out, sched
vars == <<script, pos, stage, store, seen, out, sched>>
Files == <<[name |-> B("a.txt"), data |-> B("A")], [name |-> B("longer.css"), data |-> B("b")]>>
Cs == 1..NC
Cell(c) == IF Shared THEN 1 ELSE c
Blank == [k |-> "other", m |-> <<>>, id |-> <<>>, name |-> <<>>, query |-> <<>>, tag |-> <<>>, body |-> <<>>]
Mk(kind, c, n) ==
  LET u == B("c") \o <<48 + c>> \o B("r") \o <<48 + n>>
      long == IF c = 1 THEN B("-quite-a-long-value") ELSE <<>>
  IN [k |-> kind, m |-> IF kind = "trace" THEN B("TRACE") ELSE IF kind = "echo" /\ c = 1 THEN B("POST") ELSE B("GET"),
      id |-> u \o long, name |-> IF kind = "static" THEN Files[1 + ((c + n) % 2)].name ELSE IF kind = "echo" THEN B("n") \o u ELSE <<>>,
      query |-> IF n = 1 THEN B("q=") \o u ELSE <<>>, tag |-> B("t") \o u \o long,
      body |-> IF kind = "echo" /\ c = 1 THEN B("body of ") \o u ELSE <<>>]
Scripts == [Cs -> UNION {[1..n -> Kinds] : n \in 1..2}]
Init == /\ script \in {s \in Scripts : \A c \in Cs : Len(s[c]) = (IF c = 1 THEN First ELSE 1)}
        /\ pos = [c \in Cs |-> 1] /\ stage = [c \in Cs |-> 0]
        /\ store = [c \in Cs |-> Blank] /\ seen = [c \in Cs |-> <<>>]
        /\ out = [c \in Cs |-> <<>>] /\ sched = <<>>
Req(c) == Mk(script[c][pos[c]], c, pos[c])
Step(c) ==
  /\ pos[c] <= Len(script[c])
  /\ sched' = Append(sched, c)
  /\ CASE stage[c] = 0 -> /\ store' = [store EXCEPT ![Cell(c)] = [Req(c) EXCEPT !.tag = <<>>, !.body = <<>>]]
                          /\ stage' = [stage EXCEPT ![c] = 1]
                          /\ UNCHANGED <<pos, seen, out>>
       [] stage[c] = 1 -> /\ store' = [store EXCEPT ![Cell(c)].tag = Req(c).tag, ![Cell(c)].body = Req(c).body]
                          /\ seen' = [seen EXCEPT ![c] = Append(@, SightOf([store[Cell(c)] EXCEPT !.tag = Req(c).tag, !.body = Req(c).body], c))]
                          /\ stage' = [stage EXCEPT ![c] = 2]
                          /\ UNCHANGED <<pos, out>>
       [] stage[c] = 2 -> /\ out' = [out EXCEPT ![c] = Append(@, Reply(Files, store[Cell(c)], c))]
                          /\ pos' = [pos EXCEPT ![c] = @ + 1]
                          /\ stage' = [stage EXCEPT ![c] = 0]
                          /\ UNCHANGED <<store, seen>>
  /\ UNCHANGED script
Next == \E c \in Cs : Step(c)
\* each connection gets what it would get alone
Alone(c) == [n \in 1..Len(out[c]) |-> Reply(Files, Mk(script[c][n], c, n), c)]
Independent == \A c \in Cs : /\ out[c] = Alone(c)
                             /\ \A n \in 1..Len(seen[c]) : seen[c][n] = SightOf(Mk(script[c][n], c, n), c)
Done == \A c \in Cs : pos[c] > Len(script[c])
Emit == Done => PrintT("STIM " \o ToJson([Reqs |-> [c \in Cs |-> [n \in 1..Len(script[c]) |-> Mk(script[c][n], c, n)]], Sched |-> sched]))
=============================================================================
