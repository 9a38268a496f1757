------------------------------ MODULE BoxesMC ------------------------------
(***************************************************************************)
(* The box operations of Geometry.tla are what they should be: Join is the *)
(* least upper bound under containment, Meet is having a common point.     *)
(* Checked for all boxes over Coord, and exported with all results.        *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, TLC, Json

CONSTANT Coord
VARIABLES b, c, done
vars == <<b, c, done>>

Iv == {x \in Coord \X Coord : x[1] <= x[2]}
Boxes == {<<x[1], y[1], x[2], y[2]>> : x \in Iv, y \in Iv} \cup {EmptyBox}
Points == Coord \X Coord

Init == b \in Boxes /\ c \in Boxes /\ done = FALSE
\* Growing b by c.
Next == ~done /\ b' = Join(b, c) /\ c' = c /\ done' = TRUE
Spec == Init /\ [][Next]_vars

Within(p, x) == x[1] <= p[1] /\ p[1] <= x[3] /\ x[2] <= p[2] /\ p[2] <= x[4]
PointsOf(x) == {p \in Points : Within(p, x)}
Contains(x, y) == PointsOf(y) \subseteq PointsOf(x)

JoinLeast == LET j == Join(b, c)
             IN /\ j \in Boxes /\ Contains(j, b) /\ Contains(j, c)
                /\ \A x \in Boxes : (Contains(x, b) /\ Contains(x, c)) => Contains(x, j)
JoinLaws == /\ Join(b, c) = Join(c, b) /\ Join(b, b) = b /\ Join(b, EmptyBox) = b
            /\ Join(Join(b, c), c) = Join(b, c)
PointIsBox == \A p \in Points : JoinPoint(b, p[1], p[2]) = Join(b, <<p[1], p[2], p[1], p[2]>>)
MeetIsCommonPoint == Meet(b, c) = (PointsOf(b) \cap PointsOf(c) # {})
MeetSymmetric == Meet(b, c) = Meet(c, b)

-----------------------------------------------------------------------------
ExportInit == b \in Boxes /\ c = EmptyBox /\ done = TRUE
ExportSpec == ExportInit /\ [][FALSE]_vars
Row == [b |-> b,
        pairs |-> {[c |-> x, join |-> Join(b, x), meet |-> Meet(b, x)] : x \in Boxes},
        points |-> {[p |-> p, join |-> JoinPoint(b, p[1], p[2])] : p \in Points}]
Export == PrintT("ROW " \o ToJson(Row))
=============================================================================
