---------------------------- MODULE SummaryTrace ----------------------------
(***************************************************************************)
(* Recorded texts of features: what was stored and what was shown.         *)
(* Coordinates are ranks; values are numbers, as are the names of columns. *)
(***************************************************************************)
EXTENDS Summary, TraceLib

VARIABLE l
Init == l = 1
Value(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] + 65536 * v[2]
Text(e) == /\ e.e = "begin"
           /\ LET s == Shown(e.f)
              IN /\ e.fail = s.fail
                 /\ ~s.fail => /\ e.type = s.type
                               /\ s.bounds # EmptyBox => e.bounds = s.bounds
                               /\ Len(e.props) = Len(s.props)
                               /\ \A i \in 1..Len(s.props) : e.props[i] = <<s.props[i].name, Value(s.props[i].v)>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Text(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
