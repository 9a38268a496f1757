------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Boxes and geometries over integer coordinates (only their order         *)
(* matters).  A box is <<x0, y0, x1, y1>>; a geometry has coordinates xy   *)
(* (x and y alternating) and nested parts.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Inf == 1000000000
EmptyBox == <<Inf, Inf, -Inf, -Inf>>

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Join(a, b) == <<MinI(a[1], b[1]), MinI(a[2], b[2]), MaxI(a[3], b[3]), MaxI(a[4], b[4])>>
JoinPoint(b, x, y) == Join(b, <<x, y, x, y>>)

\* Touching edges count.
Meet(a, b) == a[3] >= b[1] /\ a[4] >= b[2] /\ a[1] <= b[3] /\ a[2] <= b[4]

RECURSIVE JoinAll(_, _)
JoinAll(s, acc) == IF s = <<>> THEN acc ELSE JoinAll(Tail(s), Join(acc, Head(s)))

RECURSIVE BoxOfXY(_, _)
BoxOfXY(xy, acc) ==
  IF Len(xy) < 2 THEN acc
  ELSE BoxOfXY(SubSeq(xy, 3, Len(xy)), JoinPoint(acc, xy[1], xy[2]))

\* The bounding box of all coordinates, at any depth.
RECURSIVE BoxOfGeom(_)
BoxOfGeom(g) ==
  Join(BoxOfXY(g.xy, EmptyBox),
       JoinAll([i \in 1..Len(g.parts) |-> BoxOfGeom(g.parts[i])], EmptyBox))

\* The features (1..n, ascending) whose box meets the query.
Matches(boxes, q) == SelectSeq([i \in 1..Len(boxes) |-> i], LAMBDA i : Meet(boxes[i], q))
=============================================================================
