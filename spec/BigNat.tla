------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's integers: little-endian sequences of       *)
(* digits to the base 4096, without leading zeros (zero is <<>>).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Base == 4096

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > MaxLen(a, b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Digit(a, i) + Digit(b, i) + c
       IN <<s % Base>> \o AddC(a, b, i + 1, s \div Base)
Add(a, b) == Trim(AddC(a, b, 1, 0))

\* Multiplication and division by a number below 2^16.
RECURSIVE MulC(_, _, _, _)
MulC(a, k, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c % Base>> \o MulC(a, k, i, c \div Base)
  ELSE LET s == a[i] * k + c IN <<s % Base>> \o MulC(a, k, i + 1, s \div Base)
Mul(a, k) == Trim(MulC(a, k, 1, 0))

RECURSIVE DivC(_, _, _, _)
DivC(a, k, i, r) ==     \* digits of the quotient from position i downwards
  IF i = 0 THEN <<>>
  ELSE LET x == r * Base + a[i] IN DivC(a, k, i - 1, x % k) \o <<x \div k>>
Div(a, k) == Trim(DivC(a, k, Len(a), 0))

RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base)

\* a <= b
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqFrom(a, b, Len(a))

RECURSIVE Pow2(_)
Pow2(n) == IF n < 12 THEN <<2 ^ n>> ELSE <<0>> \o Pow2(n - 12)
=============================================================================
