----------------------------- MODULE MC_Static -----------------------------
(* All request paths of up to MaxTok tokens against two mounts over a small tree. *)
EXTENDS Static, TLC, Json
CONSTANT MaxTok
VARIABLE word
File(p) == [path |-> p, data |-> <<>>, type |-> <<>>]
Pub == [files |-> <<File(<<B("a.txt")>>), File(<<B("sub"), B("b.css")>>), File(<<B("a..b")>>)>>, dirs |-> {<<>>, <<B("sub")>>}]
Alt == [files |-> <<File(<<B("a.txt")>>)>>, dirs |-> {<<>>}]
Roots == <<Pub, Alt>>
Mounts == <<[catch |-> B("/s"), root |-> 1], [catch |-> B("/s/sub/alt/"), root |-> 2]>>
Tokens == {B("/s"), B("/"), B("a.txt"), B("/sub"), B("b.css"), B("."), B(".."), B("%2e"), B("%2F"), B("/alt/"), B("/../"), B("/pub2"), B("x"), B("a..b"), B("%")}
Init == word = <<>>
Next == \E t \in Tokens : /\ Cardinality({n \in 1..Len(word) : word[n] = 0}) < MaxTok
                          /\ word' = word \o <<0>> \o t
Raw == SelectSeq(word, LAMBDA c : c # 0)

\* lexical reading with "..": does the path ever step above where the mount begins?
RECURSIVE Rises(_, _)
Rises(depth, segs) ==
  IF segs = <<>> THEN FALSE
  ELSE LET s == Head(segs)
           d == IF s \in {<<>>, B(".")} THEN depth ELSE IF s = B("..") THEN depth - 1 ELSE depth + 1
       IN d < 0 \/ Rises(d, Tail(segs))
Named(p) == SelectSeq(Split(p, 47), LAMBDA s : s \notin {<<>>, B(".")})
Contained ==
  LET f == Find(Mounts, Roots, Raw)
      d == Decode(Raw)
      m == MountFor(Mounts, d.out)
  IN f.file # 0 =>
       /\ d.ok /\ m # 0 /\ ~HasDots(d.out)
       /\ LET dir == DirOf(Mounts[m])
              rel == Rel(NormPath(d.out), dir)
          IN /\ ~Rises(0, Split(rel, 47))
             /\ Named(rel) = Roots[f.root].files[f.file].path
             /\ Named(d.out) = Named(dir) \o Roots[f.root].files[f.file].path
Slashes == Find(Mounts, Roots, Raw).file = Find(Mounts, Roots, Raw \o B("//")).file
JoinPath(p) == FoldLeft(LAMBDA a, s : a \o <<47>> \o s, <<>>, p)
Reachable ==
  \A n \in 1..2 : \A k \in 1..Len(Roots[n].files) :
    LET p == Roots[n].files[k].path
    IN HasDots(JoinPath(p)) \/ Find(Mounts, Roots, DirOf(Mounts[n]) \o JoinPath(p)) = [root |-> n, file |-> k]
Emit == Len(word) > 0 => PrintT("STIM " \o ToJson([Raw |-> Raw]))
=============================================================================
