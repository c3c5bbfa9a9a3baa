-------------------------------- MODULE MC_KV --------------------------------
(* Bounded exploration of histories over a storage and its clone. *)
EXTENDS Data, Json
CONSTANTS MaxOps
VARIABLES sts, hist

KS == {B("a"), B("A"), B("b")}
VS == {B("1"), B("2")}
Step(o, n, k, v) == [Op |-> o, On |-> n - 1, Key |-> k, Val |-> v]
Init == sts = <<<<>>>> /\ hist = <<>>
Add == \E n \in 1..Len(sts), k \in KS, v \in VS :
         /\ sts' = [sts EXCEPT ![n] = KVAdd(@, k, v)] /\ hist' = Append(hist, Step("add", n, k, v))
Clear == \E n \in 1..Len(sts) : sts' = [sts EXCEPT ![n] = <<>>] /\ hist' = Append(hist, Step("clear", n, <<>>, <<>>))
Clone == /\ Len(sts) < 2 /\ sts' = Append(sts, sts[1]) /\ hist' = Append(hist, Step("clone", 1, <<>>, <<>>))
Scribble == sts' = [sts EXCEPT ![1] = <<>>] /\ hist' = Append(hist, Step("scribble", 1, <<>>, <<>>))
Next == Len(hist) < MaxOps /\ (Add \/ Clear \/ Clone \/ Scribble)

Laws == \A n \in 1..Len(sts) :
  /\ Len(KVKeys(sts[n])) <= Len(sts[n])
  /\ \A k \in KS :
       LET p == KVGet(sts[n], k) IN
       /\ (p # 0) <=> Len(KVValues(sts[n], k)) > 0
       /\ p # 0 => KVValues(sts[n], k)[1] = sts[n][p].v
       /\ (p # 0) <=> \E m \in 1..Len(KVKeys(sts[n])) : EqFold(KVKeys(sts[n])[m], k)
Probes == FoldLeft(LAMBDA acc, n : acc \o <<Step("all", n, <<>>, <<>>), Step("look", n, B("A"), <<>>), Step("look", n, B("b"), <<>>)>>,
                   <<>>, [n \in 1..Len(sts) |-> n])
Emit == Len(hist) = MaxOps => PrintT("STIM " \o ToJson([Steps |-> hist \o Probes]))
=============================================================================
