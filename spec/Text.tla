-------------------------------- MODULE Text --------------------------------
(* The textual transformations of the server, as little machines over bytes (percent-decoding, query
   and cookie parsing: a request's bytes drive them one at a time) or as declarative definitions
   (normalizations and accessors). *)
EXTENDS Bytes

----------------------------------------------------------------------------
(* Percent-decoding (C25). Machine: mode "lit" copies bytes, '%' enters "h1", a hex digit "h2", a
   second one emits the byte; anything else fails for good; ending inside an escape fails. *)
DecInit == [mode |-> "lit", hi |-> 0, out |-> <<>>]
DecStep(s, c) ==
  CASE s.mode = "fail" -> s
    [] s.mode = "lit" -> IF c = 37 THEN [s EXCEPT !.mode = "h1"] ELSE [s EXCEPT !.out = Append(@, c)]
    [] s.mode = "h1" -> IF IsHex(c) THEN [s EXCEPT !.mode = "h2", !.hi = HexVal(c)] ELSE [s EXCEPT !.mode = "fail"]
    [] s.mode = "h2" -> IF IsHex(c) THEN [mode |-> "lit", hi |-> 0, out |-> Append(s.out, 16 * s.hi + HexVal(c))]
                        ELSE [s EXCEPT !.mode = "fail"]
DecRun(in) == FoldLeft(DecStep, DecInit, in)
DecOK(in) == DecRun(in).mode = "lit"
DecOut(in) == DecRun(in).out
Decode(in) == IF DecOK(in) THEN [ok |-> TRUE, out |-> DecOut(in)] ELSE [ok |-> FALSE, out |-> <<>>]

----------------------------------------------------------------------------
(* Path normalization (C21) *)
NormPath(p) == LET q == TrimRight(p, 47)
               IN IF q = <<>> /\ p # <<>> THEN <<47>> ELSE q

----------------------------------------------------------------------------
(* Host names (C35, C22): the port is what follows the last ':' after the last '.' *)
StripWWW(d) == IF Len(d) >= 4 /\ EqFold(SubSeq(d, 1, 4), B("www.")) THEN From(d, 5) ELSE d
PortColon(d) == LET c == LastIndexOf(d, 58)
                IN IF c > LastIndexOf(d, 46) THEN c ELSE 0
StripDefaultPort(d) == LET c == PortColon(d)
                       IN IF c # 0 /\ From(d, c + 1) \in {B("80"), B("443")} THEN Before(d, c) ELSE d
NormHost(d) == StripDefaultPort(StripWWW(d))
TrimPort(d) == CutL(d, 58)

----------------------------------------------------------------------------
(* Listening addresses (C34) *)
HostPart(a) == CutL(a, 58)
NormAddr(a) == IF HostPart(a) = <<>> THEN B("0.0.0.0") \o a ELSE a
IsLocalhost(a) == EqFold(HostPart(a), B("localhost"))
\* dotted-quad IPv4 as accepted by the standard library: four decimal numbers 0..255 without leading zeros
IsOctet(s) == AllDigits(s) /\ Len(s) <= 3 /\ DecVal(s) <= 255 /\ (Len(s) = 1 \/ s[1] # 48)
IsIPv4(h) == LET parts == Split(h, 46) IN Len(parts) = 4 /\ \A k \in 1..4 : IsOctet(parts[k])
IsIPAddr(a) == IsIPv4(HostPart(a))

----------------------------------------------------------------------------
(* Header values (C37) *)
ValueOf(v) == CutL(v, 59)
ParamAt(v, name) ==
  LET marker == <<59>> \o name \o <<61>>
      k == FindSub(v, marker)
  IN IF k = 0 THEN [found |-> FALSE, val |-> <<>>]
     ELSE [found |-> TRUE, val |-> CutL(From(v, k + Len(marker)), 59)]
ParamOr(v, name, or) == LET r == ParamAt(v, name) IN IF r.found THEN r.val ELSE or
CharsetOf(v) == ParamOr(v, B("charset"), B("iso-8859-1"))
\* the quality is the number after ";q=0." (an optional sign is part of it); 9 if absent or not a number
QualityText(v) == LET k == FindSub(v, B(";q=0.")) IN IF k = 0 THEN B("9") ELSE CutL(From(v, k + 5), 59)
QualityOf(v) == LET q == QualityText(v)
                    digits == IF Len(q) > 0 /\ q[1] \in {43, 45} THEN Tail(q) ELSE q
                IN IF ~AllDigits(digits) THEN 9
                   ELSE IF q[1] = 45 THEN 0 - DecVal(digits) ELSE DecVal(digits)

----------------------------------------------------------------------------
(* Escaping for display (C38) *)
IsPrintable(c) == c >= 32 /\ c <= 126
EscLetter(c) == CASE c = 0 -> 48 [] c = 7 -> 97 [] c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110
                  [] c = 11 -> 118 [] c = 12 -> 102 [] c = 13 -> 114 [] OTHER -> 63
EscStep(out, c) == IF IsPrintable(c) THEN Append(out, c) ELSE out \o <<92, EscLetter(c)>>
Escape(p) == FoldLeft(EscStep, <<>>, p)

----------------------------------------------------------------------------
(* Query strings (C26): '&'-separated pairs, split at the first '=', '+' is a space, escapes decoded
   after splitting. A segment without '=' is a flag of value "1"; an empty last segment is no segment;
   an empty name before '=' or a malformed escape spoils the query. *)
Plus(s) == [k \in 1..Len(s) |-> IF s[k] = 43 THEN 32 ELSE s[k]]
QuerySegments(q) == LET segs == Split(q, 38)
                    IN IF segs[Len(segs)] = <<>> THEN SubSeq(segs, 1, Len(segs) - 1) ELSE segs
QuerySegOK(s) == LET e == IndexOf(s, 61)
                 IN IF e = 0 THEN DecOK(s) ELSE e > 1 /\ DecOK(Before(s, e)) /\ DecOK(From(s, e + 1))
QueryPair(s) == LET e == IndexOf(s, 61)
                IN IF e = 0 THEN [k |-> DecOut(Plus(s)), v |-> B("1")]
                   ELSE [k |-> DecOut(Plus(Before(s, e))), v |-> DecOut(Plus(From(s, e + 1)))]
ParseQuery(q) ==
  LET segs == QuerySegments(q)
  IN IF \A n \in 1..Len(segs) : QuerySegOK(segs[n])
     THEN [ok |-> TRUE, pairs |-> [n \in 1..Len(segs) |-> QueryPair(segs[n])]]
     ELSE [ok |-> FALSE, pairs |-> <<>>]

----------------------------------------------------------------------------
(* Cookie headers (C27): pairs separated by ';' and one optional space *)
StripOneSP(s) == IF Len(s) > 0 /\ s[1] = 32 THEN Tail(s) ELSE s
CookieSegs(h) ==
  LET raw == Split(h, 59)
      segs == [n \in 1..Len(raw) |-> IF n = 1 THEN raw[1] ELSE StripOneSP(raw[n])]
  IN IF segs[Len(segs)] = <<>> THEN SubSeq(segs, 1, Len(segs) - 1) ELSE segs
CookieOK(s) == IndexOf(s, 61) > 1
ParseCookies(h) ==
  LET segs == CookieSegs(h)
  IN IF \A n \in 1..Len(segs) : CookieOK(segs[n])
     THEN [ok |-> TRUE, pairs |-> [n \in 1..Len(segs) |-> [k |-> CutL(segs[n], 61), v |-> CutR(segs[n], 61)]]]
     ELSE [ok |-> FALSE, pairs |-> <<>>]
=============================================================================
