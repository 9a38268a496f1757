---------------------------- MODULE HostileTrace ----------------------------
(***************************************************************************)
(* Recorded sessions of a reader on damaged files.                         *)
(***************************************************************************)
EXTENDS Hostile, TraceLib

VARIABLES l, phase, size
vars == <<l, phase, size>>
Init == l = 1 /\ phase = "closed" /\ size = 0

\* begin: size of the file.
Begin(e) == e.e = "begin" /\ phase' = "fresh" /\ size' = e.size
\* A call: room in the buffer, features given, bytes in them.
Call(e) == /\ e.e = "call"
           /\ Allowed(phase, e.op, e.a)
           /\ Given(e.op, e.room, e.a, e.given)
           \* Each feature is in the file; at most once per call unless
           \* the index gives its offset more than once.
           /\ e.biggest <= size
           /\ e.op \in {"data", "datarem"} => e.bytes <= size
           /\ phase' = After(phase, e.op, e.a)
           /\ size' = size
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN Begin(e) \/ Call(e)
Spec == Init /\ [][Next]_vars
=============================================================================
