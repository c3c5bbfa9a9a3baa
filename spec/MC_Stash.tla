------------------------------ MODULE MC_Stash ------------------------------
EXTENDS Stash, Json
CONSTANTS MaxPieces, MaxOps, Sizes
VARIABLES src, sst, hist, got, base   \* got: delivered since the last reset; base: pieces taken before it

Pieces == {[Data |-> d, Err |-> er] : d \in {<<>>, <<97>>, <<97, 98, 99>>}, er \in {"", "eof", "boom"}}
Lists == UNION {[1..n -> Pieces] : n \in 0..MaxPieces}
\* make the bytes of different pieces different, so that any mix-up is visible
Mark(l) == [n \in 1..Len(l) |-> [l[n] EXCEPT !.Data = [m \in 1..Len(l[n].Data) |-> l[n].Data[m] + 5 * n]]]

Init == /\ \E l \in Lists : src = Mark(l)
        /\ sst = StashInit /\ hist = <<>> /\ got = <<>> /\ base = 0
Read(size) == LET r == ReadStep(src, sst, size, IF sst.pend = <<>> /\ sst.err = "" THEN 1 ELSE 0)
              IN /\ r.ok
                 /\ sst' = r.s /\ got' = got \o r.data /\ hist' = Append(hist, size)
                 /\ UNCHANGED <<src, base>>
Reset == /\ sst' = ResetStep(sst) /\ got' = <<>> /\ base' = sst.pos /\ hist' = Append(hist, 0 - 1)
         /\ UNCHANGED src
Next == Len(hist) < MaxOps /\ (Reset \/ \E z \in Sizes : Read(z))

Concat(from, to) == FoldLeft(LAMBDA a, n : a \o PieceAt(src, n).Data, <<>>, [k \in 1..(to - from) |-> from + k])
\* nothing lost, duplicated or reordered; nothing asked for after an error
Exact == sst.pos = base \/ got \o sst.pend = Concat(base, sst.pos)
NoAskAfterError == \A n \in (base + 1)..(sst.pos - 1) : PieceAt(src, n).Err = ""
Emit == Len(hist) = MaxOps => PrintT("STIM " \o ToJson([Pieces |-> src, Reads |-> hist]))
=============================================================================
