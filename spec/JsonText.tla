------------------------------ MODULE JsonText ------------------------------
(* JSON texts (C39): what a text means. Values are tagged records: [t |-> "s", s], [t |-> "n", s, whole] (digits
   and a power of ten), [t |-> "b", b], [t |-> "z"], [t |-> "a", a] (a sequence) and [t |-> "o", o] (a set of members; of
   equally named ones the last counts).
   The outcome of reading is ok, cut (the text ends before the value does), more (something follows the value),
   or odd: not JSON in some other way, or JSON beyond what is specified here (numbers of very many digits). *)
EXTENDS Bytes

JNull == [t |-> "z"]
JOut(st, v, next) == [st |-> st, v |-> v, next |-> next]
JCut == JOut("cut", JNull, 0)
JOdd == JOut("odd", JNull, 0)
JSpace(c) == c \in {9, 10, 13, 32}
RECURSIVE JWs(_, _)
JWs(s, i) == IF i <= Len(s) /\ JSpace(s[i]) THEN JWs(s, i + 1) ELSE i

Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
JEsc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
             [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
\* the four digits at i: -1 if they aren't all there, -2 if they aren't digits
JHex(s, i) == IF \E k \in i..(i + 3) : k <= Len(s) /\ ~IsHex(s[k]) THEN -2
              ELSE IF i + 3 > Len(s) THEN -1 ELSE HexNum(SubSeq(s, i, i + 3))
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==
  IF i > Len(s) THEN JCut
  ELSE IF s[i] = 34 THEN JOut("ok", [t |-> "s", s |-> acc], i + 1)
  ELSE IF s[i] < 32 THEN JOdd
  ELSE IF s[i] # 92 THEN JStr(s, i + 1, Append(acc, s[i]))
  ELSE IF i + 1 > Len(s) THEN JCut
  ELSE IF s[i + 1] = 117
       THEN LET u == JHex(s, i + 2)
            IN IF u = -1 THEN JCut
               ELSE IF u = -2 THEN JOdd
               ELSE IF u >= 55296 /\ u <= 56319          \* half of a pair
                    THEN (IF i + 6 > Len(s) \/ (s[i + 6] = 92 /\ i + 7 > Len(s)) THEN JCut
                          ELSE IF s[i + 6] # 92 \/ s[i + 7] # 117 THEN JOdd
                          ELSE LET l == JHex(s, i + 8)
                               IN IF l = -1 THEN JCut
                                  ELSE IF l < 56320 \/ l > 57343 THEN JOdd
                                  ELSE JStr(s, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (l - 56320))))
               ELSE IF u >= 56320 /\ u <= 57343 THEN JOdd
               ELSE JStr(s, i + 6, acc \o Utf8(u))
       ELSE IF JEsc(s[i + 1]) = -1 THEN JOdd ELSE JStr(s, i + 2, Append(acc, JEsc(s[i + 1])))
RECURSIVE JDigits(_, _)
JDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN JDigits(s, i + 1) ELSE i
\* digits d times ten to the power of e, in one way only: no zeros in front or behind
RECURSIVE JSignificant(_)
JSignificant(d) == IF d # <<>> /\ Head(d) = 48 THEN JSignificant(Tail(d))
                   ELSE IF d # <<>> /\ d[Len(d)] = 48 THEN JSignificant(SubSeq(d, 1, Len(d) - 1)) ELSE Len(d)
RECURSIVE JCanon(_, _)
JCanon(d, e) == IF d # <<>> /\ Head(d) = 48 THEN JCanon(Tail(d), e)
                ELSE IF d # <<>> /\ d[Len(d)] = 48 THEN JCanon(SubSeq(d, 1, Len(d) - 1), e + 1)
                ELSE IF d = <<>> THEN B("0e0") ELSE d \o B("e") \o Dec(e)
\* whole: written as an integer
JNum(s, i) ==
  LET neg == s[i] = 45
      from == IF neg THEN i + 1 ELSE i
      to == JDigits(s, from)
      dot == to <= Len(s) /\ s[to] = 46
      fto == IF dot THEN JDigits(s, to + 1) ELSE to
      exp == fto <= Len(s) /\ s[fto] \in {69, 101}
      esign == exp /\ fto < Len(s) /\ s[fto + 1] \in {43, 45}
      efrom == IF esign THEN fto + 2 ELSE fto + 1
      eto == IF exp THEN JDigits(s, efrom) ELSE fto
      frac == IF dot THEN SubSeq(s, to + 1, fto - 1) ELSE <<>>
      e == (IF ~exp THEN 0 ELSE IF esign /\ s[fto + 1] = 45 THEN 0 - DecVal(SubSeq(s, efrom, eto - 1)) ELSE DecVal(SubSeq(s, efrom, eto - 1)))
           - Len(frac)
      c == JCanon(SubSeq(s, from, to - 1) \o frac, e)
  IN IF from > Len(s) THEN JCut
     ELSE IF to = from \/ (to > from + 1 /\ s[from] = 48) THEN JOdd
     ELSE IF (dot /\ fto > Len(s) /\ frac = <<>>) \/ (exp /\ eto > Len(s) /\ eto = efrom) THEN JCut
     ELSE IF to - from + Len(frac) > 40 \/ JSignificant(SubSeq(s, from, to - 1) \o frac) > 15 \/ (dot /\ frac = <<>>) \/ (exp /\ (eto = efrom \/ eto > efrom + 2)) THEN JOdd
     ELSE IF (neg /\ c = B("0e0")) \/ (eto <= Len(s) /\ s[eto] \in {46, 69, 101, 43, 45}) THEN JOdd
     ELSE JOut("ok", [t |-> "n", s |-> (IF neg THEN <<45>> ELSE <<>>) \o c, whole |-> ~dot /\ ~exp /\ to - from < 10], eto)
JLit(s, i, word, v) ==
  LET rest == SubSeq(s, i, IF i + Len(word) - 1 > Len(s) THEN Len(s) ELSE i + Len(word) - 1)
  IN IF rest = word THEN JOut("ok", v, i + Len(word)) ELSE IF HasPrefix(word, rest) THEN JCut ELSE JOdd
\* the last of equally named members counts
JPut(o, k, v) == {m \in o : m.k # k} \cup {[k |-> k, v |-> v]}

RECURSIVE JVal(_, _), JElems(_, _, _), JMembers(_, _, _)
JVal(s, at) ==
  LET i == JWs(s, at)
  IN IF i > Len(s) THEN JCut
     ELSE CASE s[i] = 34 -> JStr(s, i + 1, <<>>)
            [] s[i] = 45 \/ IsDigit(s[i]) -> JNum(s, i)
            [] s[i] = 116 -> JLit(s, i, B("true"), [t |-> "b", b |-> TRUE])
            [] s[i] = 102 -> JLit(s, i, B("false"), [t |-> "b", b |-> FALSE])
            [] s[i] = 110 -> JLit(s, i, B("null"), JNull)
            [] s[i] = 91 -> LET k == JWs(s, i + 1)
                            IN IF k <= Len(s) /\ s[k] = 93 THEN JOut("ok", [t |-> "a", a |-> <<>>], k + 1) ELSE JElems(s, k, <<>>)
            [] s[i] = 123 -> LET k == JWs(s, i + 1)
                             IN IF k <= Len(s) /\ s[k] = 125 THEN JOut("ok", [t |-> "o", o |-> {}], k + 1) ELSE JMembers(s, k, {})
            [] OTHER -> JOdd
JElems(s, i, acc) ==
  LET e == JVal(s, i)
      k == JWs(s, e.next)
      more == Append(acc, e.v)
  IN IF e.st # "ok" THEN e
     ELSE IF k > Len(s) THEN JCut
     ELSE IF s[k] = 93 THEN JOut("ok", [t |-> "a", a |-> more], k + 1)
     ELSE IF s[k] = 44 THEN JElems(s, k + 1, more)
     ELSE JOdd
JMembers(s, at, acc) ==
  LET i == JWs(s, at)
      n == JStr(s, i + 1, <<>>)
      c == JWs(s, n.next)
      e == JVal(s, c + 1)
      k == JWs(s, e.next)
      more == JPut(acc, n.v.s, e.v)
  IN IF i > Len(s) THEN JCut
     ELSE IF s[i] # 34 THEN JOdd
     ELSE IF n.st # "ok" THEN n
     ELSE IF c > Len(s) THEN JCut
     ELSE IF s[c] # 58 THEN JOdd
     ELSE IF e.st # "ok" THEN e
     ELSE IF k > Len(s) THEN JCut
     ELSE IF s[k] = 125 THEN JOut("ok", [t |-> "o", o |-> more], k + 1)
     ELSE IF s[k] = 44 THEN JMembers(s, k + 1, more)
     ELSE JOdd
\* a whole text
\* (the library takes a zero byte for the end of a text: nothing is said about that)
JDoc(s) ==
  LET r == JVal(s, 1)
      k == JWs(s, r.next)
  IN IF r.st # "ok" \/ k > Len(s) THEN r ELSE IF s[k] = 0 THEN JOdd ELSE JOut("more", r.v, r.next)

\* a recorded value: the members are listed
RECURSIVE JRec(_)
JRec(v) == CASE v.t = "a" -> [t |-> "a", a |-> [n \in 1..Len(v.a) |-> JRec(v.a[n])]]
             [] v.t = "o" -> [t |-> "o", o |-> {[k |-> v.o[n].k, v |-> JRec(v.o[n].v)] : n \in 1..Len(v.o)}]
             [] v.t = "n" -> [t |-> "n", s |-> v.s]
             [] OTHER -> v
\* the value of a text, without how it was written
RECURSIVE JMeans(_)
JMeans(v) == CASE v.t = "a" -> [t |-> "a", a |-> [n \in 1..Len(v.a) |-> JMeans(v.a[n])]]
               [] v.t = "o" -> [t |-> "o", o |-> {[k |-> m.k, v |-> JMeans(m.v)] : m \in v.o}]
               [] v.t = "n" -> [t |-> "n", s |-> v.s]
               [] OTHER -> v

----------------------------------------------------------------------------
(* A model with the fields name (a string), n (an integer), f (a number), on (a boolean) and tags (a list of strings) *)
JFields == {B("name"), B("n"), B("f"), B("on"), B("tags")}
JZero(k) == CASE k = B("name") -> [t |-> "s", s |-> <<>>] [] k \in {B("n"), B("f")} -> [t |-> "n", s |-> B("0e0")]
              [] k = B("on") -> [t |-> "b", b |-> FALSE] [] k = B("tags") -> [t |-> "a", a |-> <<>>]
JFits(k, v) == CASE k = B("name") -> v.t = "s" [] k \in {B("n"), B("f")} -> v.t = "n" [] k = B("on") -> v.t = "b"
                 [] k = B("tags") -> v.t = "a" /\ \A i \in 1..Len(v.a) : v.a[i].t = "s"
JModel(v) ==
  IF v.t = "z" THEN [st |-> "odd", v |-> v]
  ELSE IF v.t # "o" THEN [st |-> "bad", v |-> v]
  ELSE IF \/ \E m \in v.o : m.k \notin JFields /\ \E f \in JFields : EqFold(f, m.k)
          \/ \E m \in v.o : m.k = B("n") /\ m.v.t = "n" /\ ~m.v.whole
          \/ \E m \in v.o : m.k \in JFields /\ (m.v.t = "z" \/ (m.v.t = "a" /\ \E i \in 1..Len(m.v.a) : m.v.a[i].t = "z"))
       THEN [st |-> "odd", v |-> v]
  ELSE IF \E m \in v.o : m.k \in JFields /\ ~JFits(m.k, m.v) THEN [st |-> "bad", v |-> v]
  ELSE [st |-> "ok",
        v |-> [t |-> "o", o |-> {[k |-> f, v |-> IF \E m \in v.o : m.k = f THEN (CHOOSE m \in v.o : m.k = f).v ELSE JZero(f)] : f \in JFields}]]

----------------------------------------------------------------------------
(* What comes of a body read as JSON: j - [model, err, code, val]; ctype - the content type; got - whether the body was
   received completely; data - it *)
IsJsonType(ctype) == ctype = <<>> \/ EqFold(TrimSpace(CutL(ctype, 59)), B("application/json"))
JsonOK(j, ctype, got, data) ==
  LET d == JDoc(data)
      m == JModel(d.v)
  IN IF ~IsJsonType(ctype) THEN j.err /\ j.code = 415
     ELSE IF ~got \/ d.st \in {"cut", "more"} THEN j.err
     ELSE IF d.st = "odd" THEN TRUE
     ELSE IF j.model = "any" THEN ~j.err /\ JRec(j.val) = JMeans(d.v)
     ELSE CASE m.st = "ok" -> ~j.err /\ JRec(j.val) = JMeans(m.v)
            [] m.st = "bad" -> j.err
            [] OTHER -> TRUE
=============================================================================
