-------------------------------- MODULE Cert --------------------------------
(* Local HTTPS: a self-signed certificate and its key are kept in two files of a cache folder, and taken from there by
   the next start. A start may die, or fail to write, at any step; whatever it leaves behind, the start after it has to
   cope with. Contents of a file: nothing at all, a part of something (or garbage), or the whole of generation n. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxGen,      \* generations of the pair
          MaxStarts,
          Trusting     \* FALSE: the code. TRUE: takes whatever files are there (has to break the invariants)
VARIABLES at,          \* where the start is
          crt, prv,    \* the two files
          gens,        \* generations so far
          before,      \* the files as this start found them
          first,       \* the files as they were in the beginning
          acts         \* what was done (the stimulus)
None == 0
Part == 0 - 1
Usable(x, y) == x > 0 /\ x = y
vars == <<at, crt, prv, gens, before, first, acts>>

CertInit == /\ at = "idle" /\ gens = 1 /\ acts = <<>> /\ before = <<None, None>>
            /\ crt \in {None, Part, 1} /\ prv \in {None, Part, 1}
            /\ first = <<crt, prv>>

Running == {"serving", "plain"}
Starting == {"gen", "c1", "c2", "k1"}
Fault(f) == acts' = [acts EXCEPT ![Len(acts)].F = f, ![Len(acts)].At = at]

Begin == /\ at = "idle" /\ Len(acts) < MaxStarts
         /\ before' = <<crt, prv>>
         /\ acts' = Append(acts, [F |-> "none", At |-> ""])
         /\ at' = IF Usable(crt, prv) THEN "serving"
                  ELSE IF Trusting /\ crt # None /\ prv # None THEN "failed" ELSE "gen"
         /\ UNCHANGED <<crt, prv, gens, first>>
Create == /\ at = "gen" /\ gens < MaxGen /\ gens' = gens + 1
          /\ crt' = Part /\ at' = "c1" /\ UNCHANGED <<prv, before, acts, first>>
WriteCert == /\ at = "c1" /\ crt' = gens /\ at' = "c2" /\ UNCHANGED <<prv, gens, before, acts, first>>
CreateKey == /\ at = "c2" /\ prv' = Part /\ at' = "k1" /\ UNCHANGED <<crt, gens, before, acts, first>>
WriteKey == /\ at = "k1" /\ prv' = gens /\ at' = "serving" /\ UNCHANGED <<crt, gens, before, acts, first>>
Crash == /\ at \in Starting /\ at' = "idle" /\ Fault("crash") /\ UNCHANGED <<crt, prv, gens, before, first>>
Error == /\ at \in Starting /\ at' = "plain" /\ Fault("error") /\ UNCHANGED <<crt, prv, gens, before, first>>
Stop == /\ at \in Running /\ at' = "idle" /\ UNCHANGED <<crt, prv, gens, before, acts, first>>
CertNext == Begin \/ Create \/ WriteCert \/ CreateKey \/ WriteKey \/ Crash \/ Error \/ Stop

\* what serves is a certificate with its own key
ServesAPair == at = "serving" => Usable(crt, prv)
\* a pair that is there is used as it is
Reused == (at = "serving" /\ Usable(before[1], before[2])) => before = <<crt, prv>>
\* a start nothing happens to ends up serving: it neither fails nor gives up HTTPS
Copes == /\ at # "failed"
         /\ at = "plain" => acts[Len(acts)].F = "error"
=============================================================================
