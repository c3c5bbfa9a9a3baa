----------------------------- MODULE Listeners -----------------------------
(* What serves the connections of the n-th listener of an application. *)
EXTENDS Bytes
Kinds == {"custom", "plain", "tls", "auto"}
ServedBy(ks, n) == CASE ks[n] = "custom" -> "custom " \o ToString(n)
                     [] ks[n] \in {"plain", "real"} -> "http plain"
                     [] OTHER -> "http tls"
\* without a router there is nothing to be found, unless the listener handles connections itself
Answers(ks, n, none) == IF none /\ ks[n] # "custom" THEN "404" ELSE ServedBy(ks, n)

(* The verdict on a start of the real application with local HTTPS (see Cert). was: the files were a usable pair; e.fault:
   none, error (it could not write), crash (it was killed); e.out: what the start came to - tls (along with plain), plain,
   died, failed; e.same: the certificate served is the one of the file as it was; e.kept: the files are what they were;
   e.now: they are a usable pair *)
StartOK(was, e) ==
  /\ was => e.kept
  /\ CASE e.fault = "crash" -> e.out \in {"died", "tls"}   \* (nothing may have had to be written)
       [] was -> e.out = "tls" /\ e.same
       [] e.fault = "error" -> e.out \in {"plain", "tls"}
       [] OTHER -> e.out = "tls" /\ e.now
=============================================================================
