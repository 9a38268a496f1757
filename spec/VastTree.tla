------------------------------ MODULE VastTree ------------------------------
(***************************************************************************)
(* Indexes far too large to be stored.  Feature i (from 0) is the point    *)
(* (2i, 0), so that a query meets a run of features, and a node which      *)
(* covers the features s..t is the box (2s, 0)..(2t, 0): every byte of the *)
(* index is given by a formula, and so is the answer to every query.  All  *)
(* large numbers are BigNats.  A query q is a range a..b of x, which       *)
(* misses all features (miss) or not by its range of y.                    *)
(***************************************************************************)
EXTENDS BigNat

One == <<1>>
CeilDivB(a, k) == Div(Add(a, OfNat(k - 1)), k)
MinB(a, b) == IF Leq(a, b) THEN a ELSE b
Less(a, b) == ~Leq(b, a)
Plus1(a) == Add(a, One)

\* Sizes of the levels, leaves first; at least one above the leaves.
RECURSIVE Above(_, _)
Above(n, ns) == LET m == CeilDivB(n, ns) IN <<m>> \o (IF m = One THEN <<>> ELSE Above(m, ns))
Levels(n, ns) == <<n>> \o Above(n, ns)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<>> ELSE Add(Head(s), Sum(Tail(s)))

\* Number of the first node of level k (1: leaves), and bytes of the index.
StartOf(lev, k) == Sum(SubSeq(lev, k + 1, Len(lev)))
IndexBytes(lev) == Mul(Sum(lev), 40)

\* The features first..last meet the query; none if first > last.
First(q) == CeilDivB(q.a, 2)
Last(q) == Div(q.b, 2)
None(n, q) == q.miss \/ Leq(n, First(q)) \/ Less(Last(q), First(q))
\* top: the last feature.
LastHit(top, q) == MinB(Last(q), top)

RECURSIVE DivPow(_, _, _)
DivPow(a, ns, k) == IF k = 0 THEN a ELSE DivPow(Div(a, ns), ns, k - 1)

(* The nodes of level k which have to be looked at, as a sequence of at    *)
(* most one range [from, to): the children of the nodes above that meet    *)
(* the query.                                                              *)
NeededAt(lev, ns, q, k) ==
  IF k = Len(lev) THEN <<<<<<>>, One>>>>
  ELSE IF q.miss \/ Leq(lev[1], First(q)) THEN <<>>
  ELSE LET j == DivPow(First(q), ns, k)
           i == MinB(Plus1(DivPow(Last(q), ns, k)), lev[k + 1])
       IN IF Less(j, i) THEN <<<<Mul(j, ns), MinB(Mul(i, ns), lev[k])>>>> ELSE <<>>

\* The same as ranges of bytes of the stream, root first.
RECURSIVE NeededFrom(_, _, _, _, _)
NeededFrom(lev, ns, q, at, k) ==
  IF k = 0 THEN <<>>
  ELSE LET r == NeededAt(lev, ns, q, k)
           B(x) == Add(at, Mul(Add(StartOf(lev, k), x), 40))
       IN [i \in 1..Len(r) |-> <<B(r[i][1]), B(r[i][2])>>] \o NeededFrom(lev, ns, q, at, k - 1)
Needed(lev, ns, q, at) == NeededFrom(lev, ns, q, at, Len(lev))
=============================================================================
