------------------------------ MODULE Hilbert ------------------------------
(***************************************************************************)
(* The Hilbert curve as an automaton.  A cell is read as its x and y bits, *)
(* most significant first; the state says how the current quadrant is      *)
(* mirrored (fl: both axes) and transposed (sw).  Each pair of bits gives  *)
(* one base-4 digit of the position on the curve.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

States == [sw : BOOLEAN, fl : BOOLEAN]
Start == [sw |-> FALSE, fl |-> FALSE]

Flip(b, f) == IF f THEN 1 - b ELSE b
\* The bits as seen in the quadrant's own orientation.
Own(s, bx, by) == LET x == Flip(bx, s.fl)
                      y == Flip(by, s.fl)
                  IN IF s.sw THEN <<y, x>> ELSE <<x, y>>
\* The U shape: (0,0) (0,1) (1,1) (1,0).
DigitOf(o) == IF o[1] = 0 THEN o[2] ELSE 3 - o[2]
Step(s, bx, by) ==
  LET o == Own(s, bx, by)
  IN [digit |-> DigitOf(o),
      next  |-> IF o[2] = 0 THEN [sw |-> ~s.sw, fl |-> IF o[1] = 1 THEN ~s.fl ELSE s.fl] ELSE s]

Bit(v, i) == (v \div (2 ^ i)) % 2

\* Position of the cell (x, y) on the curve of the given order: its base-4
\* digits, most significant first.
RECURSIVE PosFrom(_, _, _, _)
PosFrom(s, x, y, i) ==
  IF i < 0 THEN <<>>
  ELSE LET t == Step(s, Bit(x, i), Bit(y, i)) IN <<t.digit>> \o PosFrom(t.next, x, y, i - 1)
Position(order, x, y) == PosFrom(Start, x, y, order - 1)

RECURSIVE LeqDigits(_, _, _)
LeqDigits(a, b, i) ==
  IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqDigits(a, b, i + 1)
\* Earlier on the curve, or at the same place.
Before(a, b) == LeqDigits(a, b, 1)

Order == 16
=============================================================================
