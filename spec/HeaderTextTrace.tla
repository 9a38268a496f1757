-------------------------- MODULE HeaderTextTrace --------------------------
(***************************************************************************)
(* Recorded texts of headers: what was stored and what was shown.          *)
(***************************************************************************)
EXTENDS HeaderText, TraceLib

VARIABLE l
Init == l = 1
Range(s) == {s[i] : i \in 1..Len(s)}
Text(e) == /\ e.e = "begin"
           /\ LET s == Shown([e.h EXCEPT !.dims = Range(e.h.dims)])
              IN [e.s EXCEPT !.dims = Range(e.s.dims)] = s
Next == l <= Len(Trace) /\ l' = l + 1 /\ Text(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
