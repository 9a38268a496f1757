----------------------------- MODULE BoxesTrace -----------------------------
(***************************************************************************)
(* Recorded histories of one box growing, and of result lists being        *)
(* sorted.                                                                 *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, TraceLib

VARIABLES l, b
vars == <<l, b>>
Init == l = 1 /\ b = EmptyBox

Begin(e)    == e.e = "begin" /\ b' = e.b
Grow(e)     == e.e = "grow" /\ b' = Join(b, e.c) /\ e.b = b' /\ e.arg
GrowXY(e)   == e.e = "growxy" /\ b' = JoinPoint(b, e.x, e.y) /\ e.b = b'
Measure(e)  == e.e = "measure" /\ e.w = b[3] - b[1] /\ e.h = b[4] - b[2] /\ e.b = b /\ b' = b
\* Whether boxes meet, through searches in trees of one reference.
Touch(e)    == e.e = "touch" /\ e.fwd = Meet(b, e.c) /\ e.back = Meet(b, e.c) /\ b' = b
\* Items are <<offset, index>>, with distinct indexes.
Sort(e) ==
  /\ e.e = "sort"
  /\ Len(e.out) = Len(e.in)
  /\ {e.out[k] : k \in 1..Len(e.out)} = {e.in[k] : k \in 1..Len(e.in)}
  /\ \A k \in 1..(Len(e.out) - 1) : e.out[k][1] <= e.out[k + 1][1]
  /\ e.len = Len(e.in)
  /\ b' = b

Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Begin(e) \/ Grow(e) \/ GrowXY(e) \/ Measure(e) \/ Touch(e) \/ Sort(e)
Spec == Init /\ [][Next]_vars
=============================================================================
