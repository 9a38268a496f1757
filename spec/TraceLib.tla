------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Reading a trace recorded from the real code, and the acceptance         *)
(* condition.  A trace specification consumes exactly one line per step,   *)
(* deterministically, so the depth of the search tells how far it got.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* "TRACE-DONE", number of accepted lines, number of lines.
Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT(<<"TRACE-DONE", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
