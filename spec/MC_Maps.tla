------------------------------- MODULE MC_Maps -------------------------------
EXTENDS Maps, Json
CONSTANTS What, MaxOps
VARIABLES es, hist

MKeys == {B(""), B("a"), B("b"), B("A"), B("ab")}
CToks == {B("gzip"), B("x-gzip"), B("br"), B("identity"), B("compress")}
Init == es = <<>> /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ IF What = "map"
     THEN \E k \in MKeys :
            /\ es' = MapPut(es, k, Len(hist) + 1)
            /\ hist' = Append(hist, [Op |-> "insert", Key |-> k, Val |-> Len(hist) + 1])
     ELSE \E k \in CToks, f \in {"", "boom", "void"} :
            /\ es' = Append(es, [tok |-> k, tag |-> 49 + Len(hist), fail |-> f])
            /\ hist' = Append(hist, [Op |-> "add", Tok |-> k, Tag |-> 49 + Len(hist), Fail |-> f, In |-> <<>>])
Laws ==
  IF What = "map"
  THEN /\ \A k \in MKeys : LET g == MapGet(es, k) IN
            /\ g.found <=> \E n \in 1..Len(es) : es[n].key = k
            /\ g.found => \A n \in 1..Len(es) : es[n].key = k => es[n].val >= g.val
  ELSE /\ \A k \in CToks : Coded(es, "e", k, <<>>) = [err |-> "", out |-> <<>>]
       /\ Coded(es, "e", B("identity"), <<1>>) = [err |-> "", out |-> <<1>>]
       /\ (Coded(es, "e", B("br"), <<1>>).err = "unknown") = (\A n \in 1..Len(es) : es[n].tok # B("br"))
\* after every history of registrations ask for everything
Probes ==
  IF What = "map"
  THEN LET ks == SetToSeq(MKeys \cup {B("aa"), B("abc")}) IN [n \in 1..Len(ks) |-> [Op |-> "get", Key |-> ks[n], Val |-> 0]]
  ELSE LET ks == SetToSeq(CToks \cup {B("x-compress"), B("GZIP"), B("x-br"), B("")})
       IN [n \in 1..(2 * Len(ks)) |-> [Op |-> IF n <= Len(ks) THEN "enc" ELSE "dec", Tag |-> 0, Fail |-> "",
                                      Tok |-> ks[IF n <= Len(ks) THEN n ELSE n - Len(ks)], In |-> B("xyz")]]
Emit == PrintT("STIM " \o ToJson([Ops |-> hist \o Probes]))
=============================================================================
