------------------------------ MODULE MC_Words ------------------------------
(* Bounded exploration of the textual specifications: every word of up to MaxTok tokens is built by
   appending tokens; each reachable word is a state in which the laws of the function have to hold, and
   which is emitted as a stimulus for the implementation. *)
EXTENDS Text, Json

CONSTANTS Fn, MaxTok
VARIABLES w, dec

Toks ==
  CASE Fn = "decode" -> {B("%"), B("2"), B("f"), B("G"), B("/")}
    [] Fn = "normpath" -> {B("/"), B("a"), B(".")}
    [] Fn = "address" -> {B(":"), B("80"), B("localhost"), B("LocalHost"), B("0.0.0.0"), B("1.2.3.4"), B("."), B("256"), B("a")}
    [] Fn = "domain" -> {B("www."), B("WwW."), B("a"), B("."), B(":"), B("80"), B("443"), B("8080"), B("ww")}
    [] Fn = "header" -> {B(";"), B("q="), B("0."), B("3"), B("charset="), B("a"), B(" "), B("="), B("utf-8")}
    [] Fn = "escape" -> {<<0>>, <<7>>, <<10>>, <<13>>, <<9>>, <<92>>, <<32>>, <<126>>, <<127>>, <<195, 169>>, <<255>>, <<31>>, <<97>>}
    [] Fn = "query" -> {B("&"), B("="), B("a"), B("+"), B("%26"), B("%3D"), B("%2"), B("b")}
    [] Fn = "cookie" -> {B(";"), B("="), B("a"), B(" "), B("; "), B("b")}
    [] Fn = "method" -> {B("GE"), B("T"), B("P"), B("UT"), B("OST"), B("HEAD"), B("ATCH"), B("TRACE"), B("DELETE"), B("CONNECT"), B("OPTIONS"), B("t"), B("")}

Init == w = <<>> /\ dec = DecInit
Next == /\ Len(w) < MaxTok
        /\ \E t \in Toks : /\ w' = Append(w, t)
                           /\ dec' = FoldLeft(DecStep, dec, t)
In == FoldLeft(LAMBDA a, t : a \o t, <<>>, w)

RECURSIVE DecodeRec(_)
DecodeRec(s) ==          \* the declarative reading of percent-decoding
  IF s = <<>> THEN [ok |-> TRUE, out |-> <<>>]
  ELSE IF s[1] # 37
       THEN LET r == DecodeRec(Tail(s)) IN IF r.ok THEN [ok |-> TRUE, out |-> <<s[1]>> \o r.out] ELSE r
       ELSE IF Len(s) >= 3 /\ IsHex(s[2]) /\ IsHex(s[3])
            THEN LET r == DecodeRec(SubSeq(s, 4, Len(s)))
                 IN IF r.ok THEN [ok |-> TRUE, out |-> <<16 * HexVal(s[2]) + HexVal(s[3])>> \o r.out] ELSE r
            ELSE [ok |-> FALSE, out |-> <<>>]

Slashes(s) == \A k \in 1..Len(s) : s[k] = 47
Laws ==
  LET x == In IN
  CASE Fn = "decode" ->
         /\ dec = DecRun(x)                                         \* it is a machine over the bytes
         /\ Decode(x) = DecodeRec(x)
         /\ (DecOK(x) => Len(DecOut(x)) <= Len(x))
         /\ (~Has(x, 37) => Decode(x) = [ok |-> TRUE, out |-> x])
    [] Fn = "normpath" ->
         LET n == NormPath(x) IN
         /\ NormPath(n) = n
         /\ HasPrefix(x, n) /\ Slashes(From(x, Len(n) + 1))
         /\ (Len(n) > 1 => n[Len(n)] # 47)
         /\ NormPath(x \o <<47>>) = (IF x = <<>> THEN <<47>> ELSE n)
    [] Fn = "address" ->
         /\ HasSuffix(NormAddr(x), x) /\ NormAddr(NormAddr(x)) = NormAddr(x)
         /\ CutR(NormAddr(x), 58) = CutR(x, 58)
         /\ ~(IsLocalhost(x) /\ IsIPAddr(x))
    [] Fn = "domain" ->
         /\ FindSub(<<0>> \o x \o <<0>>, NormHost(x)) # 0 \/ NormHost(x) = <<>>
         /\ TrimPort(TrimPort(x)) = TrimPort(x) /\ ~Has(TrimPort(x), 58)
         /\ EqFold(NormHost(Lower(x)), NormHost(x))
    [] Fn = "header" ->
         /\ ~Has(ValueOf(x), 59) /\ HasPrefix(x, ValueOf(x))
         /\ (ParamAt(x, B("q")).found => ~Has(ParamAt(x, B("q")).val, 59))
         /\ (~Has(x, 59) => ParamOr(x, B("q"), B("zz")) = B("zz"))
    [] Fn = "escape" ->
         LET e == Escape(x) IN
         /\ \A k \in 1..Len(e) : IsPrintable(e[k])
         /\ Len(e) = Len(x) + Cardinality({k \in 1..Len(x) : ~IsPrintable(x[k])})
    [] Fn = "query" ->
         LET q == ParseQuery(x) IN
         /\ (q.ok => Len(q.pairs) <= Len(Split(x, 38)))
         /\ (~q.ok => \E k \in 1..Len(x) : x[k] \in {37, 61})
    [] Fn = "cookie" ->
         LET c == ParseCookies(x) IN
         /\ (c.ok => \A k \in 1..Len(c.pairs) : Len(c.pairs[k].k) > 0 /\ ~Has(c.pairs[k].v, 59))
         /\ (~c.ok => c.pairs = <<>>)
    [] OTHER -> TRUE

Emit == PrintT("STIM " \o ToJson([In |-> In]))
=============================================================================
