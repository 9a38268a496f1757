---------------------------- MODULE SignatureMC ----------------------------
(***************************************************************************)
(* A reader checks the signature one byte at a time.  Its verdict after at *)
(* most eight bytes is that of Signature.tla.  All sequences near the      *)
(* right one are exported with their verdict.                              *)
(***************************************************************************)
EXTENDS Signature, TLC, Json

CONSTANTS Values,      \* values tried at every position
          Second       \* values tried at a second position

Right == <<102, 103, 98, 3, 102, 103, 98, 1>>
Near == {[Right EXCEPT ![i] = v] : i \in 1..8, v \in Values}
        \cup {[Right EXCEPT ![i] = v, ![j] = w] : i \in 1..8, j \in 1..8, v \in Second, w \in Second}
Cut == {SubSeq(Right, 1, k) : k \in 0..8}
Files == {[b |-> b, z |-> z] : b \in Near, z \in {0, 3}} \cup {[b |-> b, z |-> 0] : b \in Cut}

VARIABLES f, k, verdict
vars == <<f, k, verdict>>
Init == f \in Files /\ k = 0 /\ verdict = "open"
Read == /\ verdict = "open"
        /\ IF k = Size(f) THEN verdict' = "short" /\ k' = k
           ELSE /\ k' = k + 1
                /\ verdict' = IF k \notin {3, 7} /\ At(f, k) # Fixed[k + 1] THEN "wrong"
                              ELSE IF k = 7 THEN "ok" ELSE "open"
        /\ f' = f
Spec == Init /\ [][Read]_vars

Right8 == k <= 8
Agrees == verdict # "open" => (verdict = "ok") = MagicOk(f)

ExportSpec == Init /\ [][FALSE]_vars
Row == [b |-> f.b, z |-> f.z, ok |-> MagicOk(f), major |-> Major(f), patch |-> Patch(f)]
Export == PrintT("ROW " \o ToJson(Row))
=============================================================================
