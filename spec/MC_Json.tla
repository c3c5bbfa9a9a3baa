------------------------------ MODULE MC_Json ------------------------------
(* Every word of up to MaxTok tokens after a beginning: the meaning of a text has to be stable, and every word is a
   stimulus: the body of a request. *)
EXTENDS JsonText, Json
CONSTANTS MaxTok
VARIABLES word, ntok
Q(s) == <<34>> \o B(s) \o <<34>>
Starts == {<<>>, B("{"), B("["), B("{") \o Q("name") \o B(":"), B("{") \o Q("n") \o B(":1"), B("{") \o Q("tags") \o B(":["), <<34>>}
Toks == {B("{"), B("}"), B("["), B("]"), B(","), B(":"), Q("name"), Q("a"), B("1"), B("-"), B("."), B("e"), B("true"), B("nul"), B(" "),
         <<34>>, <<92>>, B("u0041"), <<10>>}
Init == word \in Starts /\ ntok = 0
Next == /\ ntok < MaxTok /\ ntok' = ntok + 1
        /\ \E t \in Toks : word' = word \o t
Doc == JDoc(word)
Laws ==
  \* a text that was read completely stays what it is when blanks follow, and is refused when anything else does
  /\ (Doc.st = "ok" => /\ JDoc(word \o <<32>>).v = Doc.v /\ JDoc(word \o <<32>>).st = "ok"
                       /\ JDoc(word \o <<32>> \o B("x")).st = "more"
                       /\ JDoc(<<10>> \o word).v = Doc.v)
  \* what ends by itself is never read completely before its end
  /\ (Doc.st = "ok" /\ Doc.v.t \in {"s", "a", "o"} =>
        \A n \in 0..(Len(TrimSpace(word)) - 1) : JDoc(SubSeq(word, 1, n)).st = "cut" \/ n < Len(word) - Len(TrimSpace(word)) \/ n >= Doc.next - 1)
  \* what follows a value does not matter any more
  /\ (Doc.st = "more" => JDoc(word \o B("}")).st = "more" /\ JDoc(word \o B("}")).v = Doc.v)
  \* within a list or an object it means the same
  /\ (Doc.st = "ok" => JDoc(B("[") \o word \o B("]")).v = [t |-> "a", a |-> <<Doc.v>>])
Emit == PrintT("STIM " \o ToJson([Area |-> "json", Doc |-> word]))
=============================================================================
