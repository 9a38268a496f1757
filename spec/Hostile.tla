------------------------------ MODULE Hostile ------------------------------
(***************************************************************************)
(* A reader on bytes that may be anything.  Every call ends with a value   *)
(* or an error; what may follow what is all that is promised.              *)
(*                                                                         *)
(* An answer is                                                            *)
(*   "val"    a value and no error                                         *)
(*   "some"   some features and an error (reading features only)           *)
(*   "end"    some or no features and the end of the data                  *)
(*   "err"    an error                                                     *)
(*   "closed" the error of a closed reader                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ops == {"header", "index", "search", "data", "datarem", "rewind", "close"}
Answers == {"val", "some", "end", "err", "closed"}
Phases == {"fresh", "failed", "open", "closed"}

\* The phases in which op may give this answer, and the next phase.
Allowed(phase, op, a) ==
  CASE phase = "closed" -> a = "closed"
    [] op = "close" -> a \in {"val", "err"}
    [] phase = "failed" -> a = "err"
    [] phase = "fresh" -> a \in (IF op = "header" THEN {"val", "err"} ELSE {"err"})
    [] phase = "open" ->
         CASE op = "header" -> a = "err"
           [] op = "rewind" -> a \in {"val", "err"}
           [] op = "index" -> a \in {"val", "err"}
           [] op = "search" -> a \in {"val", "err"}
           [] op = "datarem" -> a \in {"val", "some", "err"}
           [] op = "data" -> a \in {"val", "some", "end", "err"}
After(phase, op, a) ==
  CASE op = "close" -> "closed"
    [] phase = "fresh" /\ op = "header" -> IF a = "val" THEN "open" ELSE "failed"
    [] OTHER -> phase
\* How many features a call may give.
Given(op, room, a, given) ==
  CASE op = "data" -> given >= 0 /\ given <= room /\ (a = "val" => given = room) /\ (a = "some" => given > 0)
    [] op = "datarem" -> given >= 0 /\ (a = "some" => given > 0)
    [] op = "search" -> given >= 0
    [] OTHER -> given = 0
=============================================================================
