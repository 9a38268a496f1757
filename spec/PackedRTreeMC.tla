--------------------------- MODULE PackedRTreeMC ---------------------------
(***************************************************************************)
(* Exhaustive exploration of searches in small trees: every reference      *)
(* list, node size, query and order of looking at pending groups ("any",   *)
(* which covers the in-memory search), and in ascending order with a       *)
(* stream cursor ("seek", the streaming search).                           *)
(***************************************************************************)
EXTENDS PackedRTree, TLC, Json

CONSTANTS MinRefs, MaxRefs, Coord, Rich, Sizes

VARIABLES refs, ns, lev, nodes,   \* the tree
          q, mode, bag, found, cur, lo
vars == <<refs, ns, lev, nodes, q, mode, bag, found, cur, lo>>

Iv == {x \in Coord \X Coord : x[1] <= x[2]}
\* Boxes that vary in one dimension, a few that vary in both, and the empty one.
Boxes == IF Rich THEN {<<x[1], 0, x[2], 1>> : x \in Iv} \cup {<<0, 2, 1, 2>>, <<2, -1, 2, 2>>, EmptyBox}
         ELSE {<<0, 0, 0, 1>>, <<1, 1, 2, 2>>, EmptyBox}
Queries == {<<x[1], 1, x[2], 1>> : x \in Iv} \cup {<<0, -1, 2, 3>>, <<1, 2, 2, 3>>, <<3, 3, 4, 4>>}

RefLists == UNION {[1..n -> Boxes] : n \in MinRefs..MaxRefs}
RefsOf(bs) == [i \in 1..Len(bs) |-> [b |-> bs[i], o |-> (i * 3) % 7]]

Tree == lev = Levels(Len(refs), ns) /\ nodes = Build(refs, ns)

Init == /\ \E bs \in RefLists : refs = RefsOf(bs)
        /\ ns \in Sizes /\ Tree /\ q \in Queries /\ mode \in {"any", "seek"}
        /\ bag = {RootGroup(lev)} /\ found = <<>> /\ cur = 0 /\ lo = 0

Look(t) ==
  /\ bag' = (bag \ {t}) \cup PushedBy(nodes, lev, t, ns, q)
  /\ found' = found \o FoundIn(nodes, lev, t, ns, q)
  /\ lo' = t.at
  /\ cur' = GroupEnd(lev, t, ns)
  /\ UNCHANGED <<refs, ns, lev, nodes, q, mode>>

Next == \E t \in bag :
          /\ mode = "seek" => \A u \in bag : t.at <= u.at
          /\ Look(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ids == [k \in 1..Len(found) |-> found[k].i]
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* P01: nothing wrong, nothing twice, and in the end everything.
FoundRight == /\ SetOf(Ids) \subseteq HitSet(refs, q)
              /\ Cardinality(SetOf(Ids)) = Len(found)
              /\ \A k \in 1..Len(found) : found[k] = Result(refs, found[k].i)
FoundAll == bag = {} => SetOf(Ids) = HitSet(refs, q)
\* P02: in list order, reading forward only, within the index.
SeekInOrder == mode = "seek" => \A k \in 1..(Len(found) - 1) : found[k].i < found[k + 1].i
SeekForward == [][mode = "seek" /\ (cur # 0 \/ lo # 0) => lo' >= cur]_vars
Inside == cur <= NumNodes(Len(refs), ns)
\* P19: only what is needed is looked at, and only once.
OnlyNeeded == /\ bag \subseteq Reach(nodes, lev, ns, q, {RootGroup(lev)})
              /\ \A t \in bag : (t.at..(GroupEnd(lev, t, ns) - 1)) \subseteq Needed(nodes, lev, ns, q)
OnceOnly == mode = "seek" => \A t \in bag : t.at >= cur
\* P03: the shape of the tree.
Shape == (lo = 0 /\ mode = "any") =>
         /\ Len(nodes) = NumNodes(Len(refs), ns)
         /\ nodes[1].b = Bounds(refs)
         /\ SubSeq(nodes, Len(nodes) - Len(refs) + 1, Len(nodes)) = refs
         /\ \A k \in 2..Len(lev) : \A i \in StartOf(lev, k)..(EndOf(lev, k) - 1) :
              /\ nodes[i + 1].o \in StartOf(lev, k - 1)..(EndOf(lev, k - 1) - 1)
              /\ nodes[i + 1].o = StartOf(lev, k - 1) + (i - StartOf(lev, k)) * ns
-----------------------------------------------------------------------------
(* Export: every reference list with its nodes and the answers to all      *)
(* queries.                                                                *)
ExportInit == /\ \E bs \in RefLists : refs = RefsOf(bs)
              /\ ns \in Sizes /\ Tree /\ q = EmptyBox /\ mode = "export" /\ bag = {} /\ found = <<>> /\ cur = 0 /\ lo = 0
ExportSpec == ExportInit /\ [][FALSE]_vars
Row == [refs |-> refs, ns |-> ns, nodes |-> nodes,
        answers |-> {[q |-> x, hits |-> Hits(refs, x), reads |-> Needed(nodes, lev, ns, x)] : x \in Queries}]
Export == PrintT("ROW " \o ToJson(Row))
=============================================================================
