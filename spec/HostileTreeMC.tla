--------------------------- MODULE HostileTreeMC ---------------------------
(***************************************************************************)
(* Small indexes with every combination of pointers and hits.              *)
(***************************************************************************)
EXTENDS HostileTree, TLC, Json

CONSTANTS Shapes,      \* pairs <<numRefs, nodeSize>>
          MaxHitSets,  \* patterns of hits
          Wild         \* use all kinds of wrong pointers

\* Numbers standing for the extreme ones the driver uses.
SmallShapes == {<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<5, 3>>}
MoreShapes == {<<5, 2>>, <<7, 3>>}
Huge == 2000000000
Wrap == 1000000000   \* + v: v + 2^32

Inner(n, ns) == 0..(First(n, ns, 1) - 1)
Ptrs(n, ns, i) ==
  LET k == LevelOf(n, ns, i)
      f == First(n, ns, k - 1)
      z == LevelSizes(n, ns)[k - 1]
      good == RightPtr(n, ns, i)
      N == NumNodes(n, ns)
  IN IF Wild THEN {good, f, f + z - 1, f + z, f - 1, i, 0, N, N - 1, -1, Huge, -Huge, Wrap + good}
     ELSE {good, f, f + z - 1, i, N}
\* Patterns of hits: everything, nothing below the root, only inner nodes,
\* alternating.
Hits(n, ns, h) ==
  [i \in 0..(NumNodes(n, ns) - 1) |->
     CASE h = 1 -> TRUE
       [] h = 2 -> i = 0
       [] h = 3 -> ~IsLeaf(n, ns, i)
       [] h = 4 -> i % 2 = 0
       [] h = 5 -> i % 2 = 1 \/ i = 0]

VARIABLES n, ns, ptr, hit, bag, looked, tickets, state
vars == <<n, ns, ptr, hit, bag, looked, tickets, state>>

Assignments(a, b) ==
  {p \in [Inner(a, b) -> UNION {Ptrs(a, b, i) : i \in Inner(a, b)}] : \A i \in Inner(a, b) : p[i] \in Ptrs(a, b, i)}
RECURSIVE Build(_, _, _)
Build(a, b, k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Build(a, b, k - 1), x \in Ptrs(a, b, k - 1)}

Init == \E sh \in Shapes :
          /\ n = sh[1] /\ ns = sh[2]
          /\ ptr \in Build(n, ns, Cardinality(Inner(n, ns)))
          /\ \E h \in 1..MaxHitSets : hit = Hits(n, ns, h)
          /\ bag = <<0>> /\ looked = {} /\ tickets = 0 /\ state = "searching"

P(i) == ptr[i + 1]
\* Take the ticket at position j out of the bag.
Take(j) ==
  /\ state = "searching" /\ j \in 1..Len(bag)
  /\ LET g == Group(n, ns, bag[j])
         rest == SubSeq(bag, 1, j - 1) \o SubSeq(bag, j + 1, Len(bag))
         follow == IF IsLeaf(n, ns, bag[j]) THEN {} ELSE {i \in g : hit[i]}
         bad == {i \in follow : ~InBelow(n, ns, i, P(i))}
     IN /\ looked' = looked \cup g
        /\ tickets' = tickets + 1
        /\ IF bad # {} THEN state' = "error" /\ bag' = rest
           ELSE /\ bag' = rest \o [k \in 1..Cardinality(follow) |->
                                     P(CHOOSE i \in follow : Cardinality({x \in follow : x < i}) = k - 1)]
                /\ state' = IF bag' = <<>> THEN "done" ELSE "searching"
  /\ UNCHANGED <<n, ns, ptr, hit>>
\* Last in, first out (in memory), and lowest first (streaming).
Lowest == CHOOSE j \in 1..Len(bag) : \A k \in 1..Len(bag) : bag[j] <= bag[k]
Next == Take(Len(bag)) \/ (state = "searching" /\ Take(Lowest))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InRange == looked \subseteq 0..(NumNodes(n, ns) - 1)
\* No more tickets than a full tree of that depth has.
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
RECURSIVE FullTree(_, _)
FullTree(a, k) == IF k = 0 THEN 0 ELSE Pow(a, k - 1) + FullTree(a, k - 1)
Bounded == tickets <= FullTree(ns, Len(LevelSizes(n, ns)))
\* An undamaged index is searched to the end.
Sound == \A i \in Inner(n, ns) : P(i) = RightPtr(n, ns, i)
NoFalseError == Sound => state # "error"
Ends == <>(state # "searching")
\* What a search has to answer: the matching leaves that are reached, or an
\* error when a pointer that does not lead into the level below is reached.
RECURSIVE Walk(_)
Walk(S) ==
  LET g == UNION {Group(n, ns, i) : i \in S}
      m == {i \in g : hit[i]}
  IN IF \E i \in S : IsLeaf(n, ns, i) THEN [bad |-> FALSE, found |-> m]
     ELSE IF \E i \in m : ~InBelow(n, ns, i, P(i)) THEN [bad |-> TRUE, found |-> {}]
     ELSE IF m = {} THEN [bad |-> FALSE, found |-> {}]
     ELSE Walk({P(i) : i \in m})
Answered == /\ state = "error" => Walk({0}).bad
            /\ state = "done" => /\ ~Walk({0}).bad
                                 /\ {i \in looked : IsLeaf(n, ns, i) /\ hit[i]} = Walk({0}).found
\* What cannot be searched must not be loaded.
Refused == \E i \in Inner(n, ns) : ~InBelow(n, ns, i, P(i))

ExportSpec == Init /\ [][FALSE]_vars
Row == [n |-> n, ns |-> ns, ptr |-> ptr, hit |-> [i \in 1..NumNodes(n, ns) |-> hit[i - 1]], sound |-> Sound,
        bad |-> Walk({0}).bad, found |-> {i - First(n, ns, 1) : i \in Walk({0}).found}, refused |-> Refused]
Export == PrintT("ROW " \o ToJson(Row))
=============================================================================
