----------------------------- MODULE TraceText -----------------------------
(* Judge of the stateless textual functions: each event is one call and its result. *)
EXTENDS Text, TraceBase

MStInit(tr) == 0
MApply(tr, s, e) ==
  CASE e.op = "decode" -> Same(s, <<[ok |-> ~e.err, out |-> e.out], e.kept>>, <<Decode(tr.in), TRUE>>)
    [] e.op = "normpath" -> Same(s, e.out, NormPath(tr.in))
    [] e.op = "address" -> Same(s, <<e.out, e.local, e.ip>>, <<NormAddr(tr.in), IsLocalhost(tr.in), IsIPAddr(tr.in)>>)
    [] e.op = "domain" -> Same(s, <<e.norm, e.trim>>, <<NormHost(tr.in), TrimPort(tr.in)>>)
    [] e.op = "header" -> Same(s, <<e.value, e.param, e.charset, e.quality>>,
                               <<ValueOf(tr.in), ParamOr(tr.in, tr.name, tr.or), CharsetOf(tr.in), QualityOf(tr.in)>>)
    [] e.op = "escape" -> Same(s, e.out, Escape(tr.in))
    [] OTHER -> Refuse(s, "no such step")
=============================================================================
