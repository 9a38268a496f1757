----------------------------- MODULE HilbertMC -----------------------------
(***************************************************************************)
(* That the automaton describes a Hilbert curve.  The curve is traversed   *)
(* for every order up to MaxOrder; and for all orders, by induction on the *)
(* order, from the local rules InductionStep: in every state the four      *)
(* quadrants are distinct and each is left next to where the following one *)
(* is entered.                                                             *)
(***************************************************************************)
EXTENDS Hilbert, FiniteSets, TLC, Json

CONSTANT MaxOrder
VARIABLES order, d, cell
vars == <<order, d, cell>>

RECURSIVE Num(_, _)
Num(ds, acc) == IF ds = <<>> THEN acc ELSE Num(Tail(ds), acc * 4 + Head(ds))
Index(o, x, y) == Num(Position(o, x, y), 0)
Side(o) == 0..(2 ^ o - 1)
Abs(a) == IF a < 0 THEN -a ELSE a

Init == order \in 1..MaxOrder /\ d = 0 /\ cell \in {c \in Side(order) \X Side(order) : Index(order, c[1], c[2]) = 0}
\* The successor on the curve is among the neighbours.
Next == /\ \E nb \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} :
             LET x == cell[1] + nb[1]
                 y == cell[2] + nb[2]
             IN /\ x \in Side(order) /\ y \in Side(order)
                /\ Index(order, x, y) = d + 1
                /\ cell' = <<x, y>>
        /\ d' = d + 1 /\ order' = order
Spec == Init /\ [][Next]_vars

\* The traversal never gets stuck before the last cell (so that all 4^order
\* cells are on the curve, once).
NoGap == (d < 4 ^ order - 1) => ENABLED Next
IndexOfCell == Index(order, cell[1], cell[2]) = d

-----------------------------------------------------------------------------
Bits == {0, 1}
Quad(s, k) == CHOOSE q \in Bits \X Bits : Step(s, q[1], q[2]).digit = k
Sub(s, k) == Step(s, Quad(s, k)[1], Quad(s, k)[2]).next
\* Where the curve in state s starts and ends: corners of its square.
Entry(s) == IF s.fl THEN <<1, 1>> ELSE <<0, 0>>
Exit(s) == LET e == Entry(s) IN IF s.sw THEN <<e[1], 1 - e[2]>> ELSE <<1 - e[1], e[2]>>
InductionStep ==
  \A s \in States :
    /\ {Step(s, b[1], b[2]).digit : b \in Bits \X Bits} = 0..3
    \* the first quadrant is at the entry and entered there; likewise the exit
    /\ Quad(s, 0) = Entry(s) /\ Entry(Sub(s, 0)) = Entry(s)
    /\ Quad(s, 3) = Exit(s) /\ Exit(Sub(s, 3)) = Exit(s)
    /\ \A k \in 0..2 :
         LET p == Quad(s, k)
             q == Quad(s, k + 1)
             e == Exit(Sub(s, k))
             n == Entry(Sub(s, k + 1))
         IN \* neighbouring quadrants, left and entered at the common side,
            \* at the same height
            /\ Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1
            /\ IF p[1] # q[1] THEN e[1] = q[1] /\ n[1] = p[1] /\ e[2] = n[2]
               ELSE e[2] = q[2] /\ n[2] = p[2] /\ e[1] = n[1]
ASSUME InductionStep

Table == {[sw |-> s.sw, fl |-> s.fl, bx |-> b[1], by |-> b[2], digit |-> Step(s, b[1], b[2]).digit,
           nsw |-> Step(s, b[1], b[2]).next.sw, nfl |-> Step(s, b[1], b[2]).next.fl] : s \in States, b \in Bits \X Bits}
Export == (order = 1 /\ d = 0) => \A r \in Table : PrintT("ROW " \o ToJson(r))
=============================================================================
