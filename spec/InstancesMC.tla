---------------------------- MODULE InstancesMC ----------------------------
(***************************************************************************)
(* Two clients exhaustively; and export of the schedules with at most      *)
(* MaxRuns uninterrupted runs, as lines                                    *)
(* "ROW {runs: <<<<client, operations>>, ...>>}".                          *)
(***************************************************************************)
EXTENDS Instances, TLC, Json

CONSTANTS MaxRuns, Emit
VARIABLE runs
vars == <<mem, op, out, runs>>

Init == IInit /\ runs = <<>>
Go(p) == /\ Operate(p)
         /\ runs' = IF runs # <<>> /\ runs[Len(runs)][1] = p
                    THEN [runs EXCEPT ![Len(runs)] = <<p, @[2] + 1>>]
                    ELSE Append(runs, <<p, 1>>)
         /\ Len(runs') <= MaxRuns
Next == \E p \in Clients : Go(p)
Spec == Init /\ [][Next]_vars

Over == \A p \in Clients : ~Running(p)
Row == ~Emit \/ ~Over \/ PrintT("ROW " \o ToJson([runs |-> runs]))
\* Schedules don't matter to what is seen.
View == <<mem, op, out>>
=============================================================================
