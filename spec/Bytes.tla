------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255, and the vocabulary every other module is written in. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)]
\* B("GET") = <<71, 69, 84>>
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

CR == 13
LF == 10
SP == 32
CRLF == <<13, 10>>

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
EqFold(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowerC(a[i]) = LowerC(b[i])

\* position of the first/last byte c in s, 0 if there is none
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)
LastIndexOf(s, c) == SelectLastInSeq(s, LAMBDA x : x = c)
Has(s, c) == IndexOf(s, c) # 0
Before(s, n) == SubSeq(s, 1, n - 1)          \* what precedes position n
From(s, n) == SubSeq(s, n, Len(s))           \* position n and what follows
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* text before the first c (all of it if there is none) / after it (empty if there is none)
CutL(s, c) == LET i == IndexOf(s, c) IN IF i = 0 THEN s ELSE Before(s, i)
CutR(s, c) == LET i == IndexOf(s, c) IN IF i = 0 THEN <<>> ELSE From(s, i + 1)
\* s split at every c
Split(s, c) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = c THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, x)],
                    [out |-> <<>>, cur |-> <<>>], s)
  IN Append(r.out, r.cur)
TrimLeft(s, c) == LET i == SelectInSeq(s, LAMBDA x : x # c) IN IF i = 0 THEN <<>> ELSE From(s, i)
TrimRight(s, c) == LET i == SelectLastInSeq(s, LAMBDA x : x # c) IN SubSeq(s, 1, i)
IsSpaceC(c) == c \in {9, 10, 11, 12, 13, 32}
TrimSpace(s) ==
  LET i == SelectInSeq(s, LAMBDA x : ~IsSpaceC(x))
      j == SelectLastInSeq(s, LAMBDA x : ~IsSpaceC(x))
  IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, j)
\* first position at which p occurs in s, 0 if nowhere
FindSub(s, p) ==
  LET hits == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
Dec(n) == B(ToString(n))
\* value of a decimal numeral, saturated above 10^9 (TLC integers are 32 bits wide)
Big == 1000000000
DecVal(s) == FoldLeft(LAMBDA a, c : IF a >= 100000000 THEN Big ELSE a * 10 + (c - 48), 0, s)
HexNum(s) == FoldLeft(LAMBDA a, c : IF a >= 62500000 THEN Big ELSE a * 16 + HexVal(c), 0, s)
=============================================================================
