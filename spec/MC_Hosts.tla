------------------------------ MODULE MC_Hosts ------------------------------
EXTENDS Router, Json
CONSTANTS MaxRegs
VARIABLES regs
Names == {B("a.com"), B("www.A.com"), B("a.com:443"), B("a.com:8080"), B("b"), B("0.0.0.0:80"), B("www.")}
Init == regs = <<>>
Next == /\ Len(regs) < MaxRegs
        /\ \/ \E h \in Names : regs' = Append(regs, [host |-> h, id |-> Len(regs) + 1, def |-> FALSE])
           \/ regs' = Append(regs, [host |-> <<>>, id |-> Len(regs) + 1, def |-> TRUE])
Asked == <<<<>>, <<B("a.com")>>, <<B("A.COM:80")>>, <<B("WWW.a.com:443")>>, <<B("a.com:8080")>>, <<B("www.a.com:8081")>>, <<B("b:443")>>, <<B("c")>>, <<B("")>>,
           <<B("a.com"), B("a.com")>>, <<B("a.com"), B("b")>>, <<B("0.0.0.0")>>>>
Laws == \A n \in 1..Len(Asked) :
          LET v == VHost(regs, Asked[n])
          IN /\ (v.id = 0) # (v.code = 0)
             /\ (Len(Asked[n]) > 1 => v.code = 400)
             /\ (DefaultOf(regs) # 0 /\ Len(Asked[n]) < 2 => v.id # 0)
             /\ (v.id # 0 /\ v.id # DefaultOf(regs) => EqFold(NormHost(regs[v.id].host), NormHost(Asked[n][1])))
\* the insignificant parts are insignificant on both sides
Same(h) == VHost(regs, <<h>>)
Insignificant == /\ Same(B("a.com")) = Same(B("www.a.com")) /\ Same(B("a.com")) = Same(B("a.com:80")) /\ Same(B("A.com:443")) = Same(B("a.COM"))
Emit == PrintT("STIM " \o ToJson([Regs |-> regs, Reqs |-> Asked]))
=============================================================================
