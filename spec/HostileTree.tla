---------------------------- MODULE HostileTree ----------------------------
(***************************************************************************)
(* Searching an index whose node pointers may be anything.                 *)
(*                                                                         *)
(* The index claims numRefs references in nodes of nodeSize children.  A   *)
(* node is [hit, ptr]: whether its box meets the query and what it gives   *)
(* as the number of its first child.  A search takes tickets (the first    *)
(* node of a group of children) out of a bag, in any order, and looks at   *)
(* the nodes of the group.  It is safe when it never looks at a node that  *)
(* does not exist and ends after a bounded number of tickets.  Checking    *)
(* that each pointer it follows leads into the next lower level is enough, *)
(* however much the pointers are entangled otherwise.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b

\* Sizes of the levels, leaves first, root last.
RECURSIVE Levels(_, _)
Levels(n, ns) == IF n = 1 THEN <<1>> ELSE <<n>> \o Levels(CeilDiv(n, ns), ns)
LevelSizes(n, ns) == IF n = 1 THEN <<1, 1>> ELSE Levels(n, ns)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
NumNodes(n, ns) == LET s == LevelSizes(n, ns) IN SumTo(s, Len(s))
\* The nodes of level k (leaves: 1) are First(k) .. First(k) + size - 1;
\* nodes are numbered from 0, root first.
First(n, ns, k) == LET s == LevelSizes(n, ns) IN NumNodes(n, ns) - SumTo(s, k)
LevelOf(n, ns, i) ==
  LET s == LevelSizes(n, ns)
  IN CHOOSE k \in 1..Len(s) : First(n, ns, k) <= i /\ i < First(n, ns, k) + s[k]
IsLeaf(n, ns, i) == i >= First(n, ns, 1)
\* The pointer an undamaged inner node has.
RightPtr(n, ns, i) ==
  LET k == LevelOf(n, ns, i) IN First(n, ns, k - 1) + (i - First(n, ns, k)) * ns
\* Does a pointer lead into the level below?
InBelow(n, ns, i, p) ==
  LET k == LevelOf(n, ns, i)
  IN p >= First(n, ns, k - 1) /\ p < First(n, ns, k - 1) + LevelSizes(n, ns)[k - 1]
\* The nodes a ticket stands for.
Group(n, ns, i) ==
  LET k == LevelOf(n, ns, i)
      end == First(n, ns, k) + LevelSizes(n, ns)[k]
  IN i..((IF i + ns < end THEN i + ns ELSE end) - 1)
=============================================================================
