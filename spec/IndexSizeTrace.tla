--------------------------- MODULE IndexSizeTrace ---------------------------
(***************************************************************************)
(* The size of an index, exactly, for any number of references and node    *)
(* size: recorded answers of packedrtree.Size (and of building and loading *)
(* with the same arguments, which must report the same overflow).          *)
(***************************************************************************)
EXTENDS BigNat, TraceLib

VARIABLE l
vars == <<l>>
Init == l = 1

One == <<1>>
CeilDivB(a, k) == Div(Add(a, OfNat(k - 1)), k)

RECURSIVE NodesAbove(_, _)
NodesAbove(n, ns) ==
  LET m == CeilDivB(n, ns) IN IF m = One THEN One ELSE Add(m, NodesAbove(m, ns))
SizeOf(n, ns) == Mul(Add(n, NodesAbove(n, ns)), 40)

\* Representable as an int of the given number of bits.
Fits(s, bits) == ~Leq(Pow2(bits - 1), s)

Sized(e) ==
  /\ e.e \in {"begin", "size"}
  /\ LET s == SizeOf(e.n, e.ns)
     IN IF Fits(s, e.bits) THEN e.c = "ok" /\ e.size = s ELSE e.c = "err"

Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN Sized(e)
Spec == Init /\ [][Next]_vars
=============================================================================
