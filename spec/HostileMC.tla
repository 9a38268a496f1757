----------------------------- MODULE HostileMC -----------------------------
(***************************************************************************)
(* The phases of a reader on arbitrary bytes.                           *)
(***************************************************************************)
EXTENDS Hostile, TLC, Json

VARIABLES phase, last, opened
vars == <<phase, last, opened>>
Init == phase = "fresh" /\ last = <<"", "val">> /\ opened = FALSE
Call(op, a) == /\ Allowed(phase, op, a)
               /\ phase' = After(phase, op, a)
               /\ last' = <<op, a>>
               /\ opened' = (opened \/ phase' = "open")
Next == \E op \in Ops, a \in Answers : Call(op, a)
Spec == Init /\ [][Next]_vars
\* Values come only from an opened reader, or from closing.
ValuesNeedOpen == last[2] \in {"val", "some", "end"} => opened \/ last[1] \in {"", "close"}
FailedStays == [][phase = "failed" => phase' \in {"failed", "closed"}]_vars
ClosedStays == [][phase = "closed" => phase' = "closed"]_vars
\* There is always a way on.
Live == \A op \in Ops : \E a \in Answers : Allowed(phase, op, a)

Export == \A op \in Ops, a \in Answers :
            Allowed(phase, op, a) => PrintT("EDGE " \o ToJson([f |-> phase, op |-> op, a |-> a, t |-> After(phase, op, a)]))
=============================================================================
