--------------------------- MODULE HostileDamage ---------------------------
(***************************************************************************)
(* The damage done to a file: one or two of its fields replaced.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Fields,      \* places in the file
          Kinds,       \* what is put there
          Kinds2       \* what is put there when two places are damaged

VARIABLE dmg
Init == dmg \in {<<[f |-> f, k |-> k]>> : f \in Fields, k \in Kinds}
           \cup {<<[f |-> f, k |-> k], [f |-> g, k |-> h]>> : f \in Fields, g \in Fields, k \in Kinds2, h \in Kinds2}
Spec == Init /\ [][FALSE]_dmg
Export == PrintT("ROW " \o ToJson([d |-> dmg]))
=============================================================================
