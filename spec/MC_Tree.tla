------------------------------ MODULE MC_Tree ------------------------------
(* The tree of segments a dynamic router is compiled into: routes are inserted in an arbitrary order, one segment
   at a time; afterwards walking down the tree has to agree with the declarative choice of the route, and the
   conflict of wildcard names has to be found whatever the order. *)
EXTENDS Router, Json
CONSTANTS MaxRoutes
VARIABLES list, nodes, todo, cur, failed

Pool == {B("/"), B("/a"), B("/a/b"), B("/{x}"), B("/{y}"), B("/a/{x}"), B("/a/{y}"), B("/{x}/b"), B("/{}"), B("/{}/b"), B("/a//b"), B("/{x}/{x}"), B("/b/a/")}
Probes == <<B("/"), B("/a"), B("/b"), B("/c"), B("/a/b"), B("/b/a"), B("/a/c"), B("/c/b"), B("/c/d"), B("/a/b/c"), B("/a//b"), B("//b"), B("/a/"), B("/c//"), B("//"), B("/ab")>>
RouteRec(n) == [segs |-> SegmentsOf(list[n]), id |-> n, m |-> B("GET")]
All == 1..Len(list)
Node == [stat |-> <<>>, wild |-> <<0>>, next |-> 0, pay |-> 0]
Idle == [node |-> 0, segs |-> <<>>, id |-> 0]

Init == /\ list \in UNION {[1..n -> Pool] : n \in 1..MaxRoutes}
        /\ \A i, j \in 1..Len(list) : i # j => NormPath(list[i]) # NormPath(list[j])
        /\ nodes = <<Node>> /\ todo = 1..Len(list) /\ cur = Idle /\ failed = FALSE
Begin == /\ cur = Idle /\ ~failed
         /\ \E n \in todo : cur' = [node |-> 1, segs |-> RouteRec(n).segs, id |-> n] /\ todo' = todo \ {n}
         /\ UNCHANGED <<list, nodes, failed>>
Descend ==
  /\ cur # Idle /\ ~failed
  /\ LET nd == nodes[cur.node]
         s == Head(cur.segs)
         k == SelectInSeq(nd.stat, LAMBDA e : e.seg = s)
         fresh == Len(nodes) + 1
     IN IF cur.segs = <<>>
        THEN nodes' = [nodes EXCEPT ![cur.node].pay = cur.id] /\ cur' = Idle /\ UNCHANGED failed
        ELSE IF IsWild(s)
        THEN IF nd.wild # <<0>> /\ nd.wild # WildName(s) THEN failed' = TRUE /\ cur' = Idle /\ UNCHANGED nodes
             ELSE /\ nodes' = IF nd.next # 0 THEN nodes
                              ELSE Append([nodes EXCEPT ![cur.node].wild = WildName(s), ![cur.node].next = fresh], Node)
                  /\ cur' = [cur EXCEPT !.node = IF nd.next # 0 THEN nd.next ELSE fresh, !.segs = Tail(@)]
                  /\ UNCHANGED failed
        ELSE /\ nodes' = IF k # 0 THEN nodes
                         ELSE Append([nodes EXCEPT ![cur.node].stat = Append(@, [seg |-> s, node |-> fresh])], Node)
             /\ cur' = [cur EXCEPT !.node = IF k # 0 THEN nd.stat[k].node ELSE fresh, !.segs = Tail(@)]
             /\ UNCHANGED failed
  /\ UNCHANGED <<list, todo>>
Next == Begin \/ Descend

RECURSIVE Down(_, _, _)
Down(at, segs, params) ==
  IF segs = <<>> THEN [id |-> nodes[at].pay, params |-> params]
  ELSE LET nd == nodes[at]
           s == Head(segs)
           k == SelectInSeq(nd.stat, LAMBDA e : e.seg = s)
       IN IF k # 0 THEN Down(nd.stat[k].node, Tail(segs), params)
          ELSE IF nd.next = 0 \/ s = <<>> THEN [id |-> 0, params |-> <<>>]
          ELSE Down(nd.next, Tail(segs), IF nd.wild = <<>> THEN params ELSE Append(params, [k |-> nd.wild, v |-> s]))
Done == todo = {} /\ cur = Idle /\ ~failed
Conflicting == \E i, j \in All : i < j /\ Conflict(RouteRec(i).segs, RouteRec(j).segs)
Found == (Done => ~Conflicting) /\ (failed => Conflicting)
Agree == Done => \A n \in 1..Len(Probes) :
           LET ms == Walk({RouteRec(i) : i \in All}, SegmentsOf(Probes[n]), 1)
               d == Down(1, SegmentsOf(Probes[n]), <<>>)
           IN IF ms = {} THEN d.id = 0
              ELSE \A r \in ms : d.id = r.id /\ d.params = ParamsOf(r, Probes[n])
\* stimuli: every list of routes, with every probe by several methods
Meths == <<B("GET"), B("HEAD"), B("POST"), B("TRACE")>>
Rq(p, m) == [M |-> m, Path |-> p, Query |-> <<>>, Hdrs |-> <<>>, Plain |-> TRUE, Err |-> ""]
Emit == (todo = All /\ cur = Idle) =>
  PrintT("STIM " \o ToJson([Ops |-> [n \in All |-> [Op |-> "route", G |-> 1, Path |-> list[n], M |-> IF n % 2 = 1 THEN B("GET") ELSE B("POST"), Id |-> n]],
                            Reqs |-> [k \in 1..(4 * Len(Probes)) |-> Rq(Probes[((k - 1) \div 4) + 1], Meths[((k - 1) % 4) + 1])]]))
=============================================================================
