---------------------------- MODULE HilbertTrace ----------------------------
(***************************************************************************)
(* Recorded sorts.  Every reference is logged with the grid cell of its    *)
(* box centre, or <<>> if it has none (an empty box).                      *)
(***************************************************************************)
EXTENDS Hilbert, FiniteSets, TraceLib

VARIABLES l, cells
vars == <<l, cells>>
Init == l = 1 /\ cells = <<>>

\* Bounds without width or height leave one column or row of cells.
Begin(e) ==
  /\ e.e = "begin"
  /\ cells' = [i \in 1..Len(e.cells) |->
       IF e.cells[i] = <<>> THEN <<>>
       ELSE <<IF e.flatx THEN 0 ELSE e.cells[i][1], IF e.flaty THEN 0 ELSE e.cells[i][2]>>]

\* out: the references in their new order, by number; 0: one that was not there.
Sorted(e) ==
  /\ e.e = "sorted"
  /\ Len(e.out) = Len(cells)
  /\ {e.out[k] : k \in 1..Len(e.out)} = 1..Len(cells)
  /\ LET placed == SelectSeq(e.out, LAMBDA i : cells[i] # <<>>)
         pos == [k \in 1..Len(placed) |-> Position(Order, cells[placed[k]][1], cells[placed[k]][2])]
     IN \A k \in 1..(Len(pos) - 1) : Before(pos[k + 1], pos[k])
  /\ UNCHANGED cells

Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN Begin(e) \/ Sorted(e)
Spec == Init /\ [][Next]_vars
=============================================================================
