--------------------------- MODULE SignatureTrace ---------------------------
(***************************************************************************)
(* Recorded attempts to check a signature and to open a file.              *)
(***************************************************************************)
EXTENDS Signature, TraceLib

VARIABLES l, failed
vars == <<l, failed>>
Init == l = 1 /\ failed = FALSE

Magic(e) == /\ e.e = "begin"
            /\ e.ok = MagicOk(e)
            /\ e.ok => e.major = Major(e) /\ e.patch = Patch(e)
            /\ e.consumed <= 8 /\ e.consumed <= Size(e)
            /\ failed' = FALSE
Open(e) == /\ e.e = "open"
           /\ LET a == Accept(e, e.bits)
              IN (a = "yes" => e.ok) /\ (a = "no" => ~e.ok)
           /\ failed' = ~e.ok
\* Calls after an attempt that failed.
After(e) == e.e = "after" /\ failed /\ ~e.ok /\ failed' = failed

Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN Magic(e) \/ Open(e) \/ After(e)
Spec == Init /\ [][Next]_vars
=============================================================================
