---------------------------- MODULE PackedRTree ----------------------------
(***************************************************************************)
(* The packed R-tree index.                                                *)
(*                                                                         *)
(* A reference is [b |-> box, o |-> offset]; refs is a non-empty sequence  *)
(* of references and ns >= 2 the node size.  The tree is a sequence of     *)
(* nodes: the root level first, the leaves (the references, in list order) *)
(* last.  Every level above the leaves groups ns nodes of the level below, *)
(* and there is always at least one such level.  An internal node has the  *)
(* union of its children's boxes and the index of its first child (nodes   *)
(* are numbered from 0).                                                   *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b

\* Number of nodes per level, leaves first.
RECURSIVE LevelsAbove(_, _)
LevelsAbove(n, ns) ==
  LET m == CeilDiv(n, ns) IN <<m>> \o (IF m = 1 THEN <<>> ELSE LevelsAbove(m, ns))
Levels(n, ns) == <<n>> \o LevelsAbove(n, ns)

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

NumNodes(n, ns) == Total(Levels(n, ns))
NodeBytes == 40

\* Index of the first node of level k (1: leaves).
StartOf(lev, k) == Total(SubSeq(lev, k + 1, Len(lev)))
EndOf(lev, k) == StartOf(lev, k) + lev[k]

\* The union of the boxes of nodes[i..j], by halves.
RECURSIVE Union(_, _, _)
Union(nodes, i, j) ==
  IF i = j THEN nodes[i].b
  ELSE LET m == (i + j) \div 2 IN Join(Union(nodes, i, m), Union(nodes, m + 1, j))

\* The level above: start is the index of the first node of this level.
Up(nodes, ns, start) ==
  [p \in 1..CeilDiv(Len(nodes), ns) |->
     [b |-> Union(nodes, (p - 1) * ns + 1, MinI(p * ns, Len(nodes))),
      o |-> start + (p - 1) * ns]]

RECURSIVE BuildUp(_, _, _, _)
BuildUp(level, lev, k, ns) ==
  IF k = Len(lev) THEN level
  ELSE BuildUp(Up(level, ns, StartOf(lev, k)), lev, k + 1, ns) \o level
Build(refs, ns) == BuildUp(refs, Levels(Len(refs), ns), 1, ns)

Bounds(refs) == Union(refs, 1, Len(refs))

\* What a search has to find: positions (from 0) of the references whose
\* box meets the query, in list order.
Hits(refs, q) == SelectSeq([i \in 1..Len(refs) |-> i - 1], LAMBDA i : Meet(refs[i + 1].b, q))
HitSet(refs, q) == {i \in 0..(Len(refs) - 1) : Meet(refs[i + 1].b, q)}
Result(refs, i) == [o |-> refs[i + 1].o, i |-> i]

-----------------------------------------------------------------------------
(* How it is found.  The state of a search: bag, the groups of nodes still *)
(* to look at (index of the first node, level), and what was found.        *)
RootGroup(lev) == [at |-> 0, lv |-> Len(lev)]
GroupEnd(lev, t, ns) == MinI(t.at + ns, EndOf(lev, t.lv))
InGroup(nodes, lev, t, ns, q) ==
  SelectSeq([i \in 1..(GroupEnd(lev, t, ns) - t.at) |-> t.at + i - 1], LAMBDA i : Meet(nodes[i + 1].b, q))
FoundIn(nodes, lev, t, ns, q) ==
  IF t.lv > 1 THEN <<>>
  ELSE LET m == InGroup(nodes, lev, t, ns, q)
       IN [k \in 1..Len(m) |-> [o |-> nodes[m[k] + 1].o, i |-> m[k] - StartOf(lev, 1)]]
PushedBy(nodes, lev, t, ns, q) ==
  IF t.lv = 1 THEN {}
  ELSE LET m == InGroup(nodes, lev, t, ns, q)
       IN {[at |-> nodes[m[k] + 1].o, lv |-> t.lv - 1] : k \in 1..Len(m)}

-----------------------------------------------------------------------------
(* What has to be looked at: the groups reached from the root through      *)
(* nodes that meet the query, and the nodes of these groups.               *)
RECURSIVE Reach(_, _, _, _, _)
Reach(nodes, lev, ns, q, gs) ==
  IF gs = {} THEN {}
  ELSE gs \cup Reach(nodes, lev, ns, q, UNION {PushedBy(nodes, lev, t, ns, q) : t \in gs})
Needed(nodes, lev, ns, q) ==
  UNION {t.at..(GroupEnd(lev, t, ns) - 1) : t \in Reach(nodes, lev, ns, q, {RootGroup(lev)})}
=============================================================================
