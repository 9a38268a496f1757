------------------------------ MODULE BigNatMC ------------------------------
(* BigNat against TLC's own integers, and its laws on large numbers.       *)
EXTENDS BigNat, TLC
VARIABLES a, b, k
vars == <<a, b, k>>
Small == {0, 1, 2, 39, 4095, 4096, 4097, 8191, 65535, 16777215, 16777216, 100000007}
Init == a \in Small /\ b \in Small /\ k \in {1, 2, 3, 16, 40, 4095, 4096, 4097, 65534, 65535}
Spec == Init /\ [][FALSE]_vars
A == OfNat(a)
B == OfNat(b)
Big == Mul(Mul(Add(A, Pow2(62)), k), 65535)
Laws == /\ Add(A, B) = OfNat(a + b)
        /\ Div(A, k) = OfNat(a \div k)
        /\ (a < 30000 => Mul(A, k) = OfNat(a * k))
        /\ Leq(A, B) = (a <= b)
        /\ Div(Div(Big, 65535), k) = Add(A, Pow2(62))
        /\ Leq(A, Add(A, B)) /\ (Leq(Add(A, <<1>>), A) = FALSE)
        /\ Div(Add(Big, OfNat(k - 1)), k) = Mul(Add(A, Pow2(62)), 65535)
=============================================================================
