---------------------------- MODULE AccessorsMC ----------------------------
(***************************************************************************)
(* Building a table field by field, in any order, then reading it and      *)
(* overwriting fields in place.                                            *)
(***************************************************************************)
EXTENDS Accessors, FiniteSets, TLC, Json

CONSTANTS MaxAdds, MaxMuts

VARIABLES t, st, adds, done, muts
vars == <<t, st, adds, done, muts>>
Empty(x) == [i \in 1..Len(Fields(x)) |-> None]
Init == t \in Tables /\ st = Empty(t) /\ adds = <<>> /\ done = FALSE /\ muts = <<>>
Add(i, v) == /\ ~done /\ Len(adds) < MaxAdds /\ st[i] = None
             /\ st' = [st EXCEPT ![i] = v]
             /\ adds' = Append(adds, <<i, v>>)
             /\ UNCHANGED <<t, done, muts>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<t, st, adds, muts>>
Change(i, v) == /\ done /\ Len(muts) < MaxMuts /\ IsScalar(Fields(t)[i])
                /\ st' = Mutate(st, i, v)
                /\ muts' = Append(muts, [i |-> i, v |-> v, ok |-> CanMutate(st, t, i)])
                /\ UNCHANGED <<t, adds, done>>
Next == \/ Finish
        \/ \E i \in 1..Len(Fields(t)) : \/ \E v \in Values(Fields(t)[i]) : Add(i, v)
                                       \/ \E v \in {0, 1} : Change(i, v)
Spec == Init /\ [][Next]_vars

\* A field reads as it was last set, whatever the others are.
Last(i) == LET m == {k \in 1..Len(muts) : muts[k].i = i /\ muts[k].ok}
               a == {k \in 1..Len(adds) : adds[k][1] = i}
           IN IF m # {} THEN muts[CHOOSE k \in m : \A j \in m : j <= k].v
              ELSE IF a # {} THEN adds[CHOOSE k \in a : TRUE][2] ELSE 0
Reads == \A i \in 1..Len(st) : Get(st, i) = (IF Last(i) = Forced THEN 0 ELSE Last(i))
\* What is absent stays absent.
Absent == \A i \in 1..Len(st) : (st[i] = None) = (\A k \in 1..Len(adds) : adds[k][1] # i)

-----------------------------------------------------------------------------
\* Rows: tables with no, one, two, all and all but one field present.
Few(x) == {<<>>} \cup {<<i>> : i \in 1..Len(Fields(x))}
          \cup {<<i, j>> : i \in 1..Len(Fields(x)), j \in 1..Len(Fields(x))}
Most(x) == {SelectSeq([k \in 1..Len(Fields(x)) |-> k], LAMBDA k : k # i) : i \in 0..Len(Fields(x))}
           \cup {SelectSeq([k \in 1..Len(Fields(x)) |-> Len(Fields(x)) + 1 - k], LAMBDA k : k # i) : i \in 0..Len(Fields(x))}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE Store(_, _, _)
Store(s, a, k) == IF k > Len(a) THEN s ELSE Store([s EXCEPT ![a[k][1]] = a[k][2]], a, k + 1)

\* Value of the i-th field in the n-th choice of values.
Choice(f, i, n) == IF f.k = "bool" THEN (IF n = 4 THEN Forced ELSE 1)
                   ELSE IF n = 4 /\ IsScalar(f) THEN Forced
                   ELSE ((i + n) % 3) + 1
RowInit == /\ t \in Tables
           /\ \E s \in {x \in Few(t) \cup Most(t) : Distinct(x)}, n \in 0..4 :
                adds = [k \in 1..Len(s) |-> <<s[k], Choice(Fields(t)[s[k]], s[k], n)>>]
           /\ st = Store(Empty(t), adds, 1)
           /\ done = TRUE
           /\ muts \in {<<>>} \cup (IF Len(adds) = 2 THEN {}
                                    ELSE {<<[i |-> i, v |-> v, ok |-> CanMutate(st, t, i)]>> : i \in {k \in 1..Len(Fields(t)) : IsScalar(Fields(t)[k])}, v \in {0, 1}})
RowSpec == RowInit /\ [][FALSE]_vars
Final == IF muts = <<>> THEN st ELSE Mutate(st, muts[1].i, muts[1].v)
Row == [t |-> t, adds |-> adds, muts |-> muts, get |-> [i \in 1..Len(st) |-> Get(Final, i)]]
Export == PrintT("ROW " \o ToJson(Row))
\* The schema itself.
Schema == PrintT("SCHEMA " \o ToJson([tables |-> [x \in Tables |-> Fields(x)], geometry |-> GeometryTypes, column |-> ColumnTypes]))
SchemaSpec == Init /\ [][FALSE]_vars
ExportSchema == t = "Header" => Schema
=============================================================================
