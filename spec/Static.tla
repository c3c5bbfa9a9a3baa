------------------------------- MODULE Static -------------------------------
(* Static files (C23). A root is [files, dirs]: files a sequence of [path, data, type] with path the sequence
   of segments below the root directory, dirs the directories (sequences of segments, the root itself is <<>>).
   A mount is [catch, root]: the path prefix as registered, and which root is served there. *)
EXTENDS Text

\* the file system's reading of a path below the root (no links, no "..")
RECURSIVE Resolve(_, _, _, _)
Resolve(fs, ds, at, segs) ==
  IF segs = <<>> THEN at
  ELSE IF at \notin ds THEN <<<<>>>>
  ELSE LET s == Head(segs)
           next == IF s \in {<<>>, B(".")} THEN at ELSE Append(at, s)
       IN IF next \in ds \/ next \in fs THEN Resolve(fs, ds, next, Tail(segs)) ELSE <<<<>>>>
HasDots(p) == \E n \in 1..(Len(p) - 1) : p[n] = 46 /\ p[n + 1] = 46
Under(p, dir) == IF dir = <<47>> THEN Len(p) > 0 /\ p[1] = 47 ELSE HasPrefix(p, dir) /\ Len(p) > Len(dir) /\ p[Len(dir) + 1] = 47
Rel(p, dir) == IF dir = <<47>> THEN Tail(p) ELSE From(p, Len(dir) + 2)
DirOf(mount) == IF mount.catch = <<>> THEN <<47>> ELSE NormPath(mount.catch)
\* the file a decoded path names below a mount: 0 - none
FileAt(root, dir, path) ==
  LET p == NormPath(path)
      fs == {root.files[n].path : n \in 1..Len(root.files)}
      r == Resolve(fs, root.dirs, <<>>, Split(Rel(p, dir), 47))
  IN IF ~Under(p, dir) \/ HasDots(p) THEN 0
     ELSE SelectInSeq(root.files, LAMBDA f : f.path = r)
\* the mount responsible: the longest registered prefix of the path (whatever follows it)
MountFor(mounts, path) ==
  LET ms == {n \in 1..Len(mounts) : HasPrefix(NormPath(path), NormPath(mounts[n].catch))}
  IN IF ms = {} THEN 0 ELSE CHOOSE n \in ms : \A k \in ms : Len(mounts[k].catch) <= Len(mounts[n].catch)
\* what the request path (as sent) is answered with: [root, file], file 0 - not found
Find(mounts, roots, raw) ==
  LET d == Decode(raw)
      m == MountFor(mounts, d.out)
  IN IF ~d.ok \/ m = 0 THEN [root |-> 0, file |-> 0]
     ELSE [root |-> mounts[m].root, file |-> FileAt(roots[mounts[m].root], DirOf(mounts[m]), d.out)]
=============================================================================
