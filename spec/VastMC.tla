------------------------------- MODULE VastMC -------------------------------
(***************************************************************************)
(* The formulas of VastTree agree with the general definitions of          *)
(* PackedRTree wherever both can be evaluated.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxN, MaxNs
V == INSTANCE VastTree
P == INSTANCE PackedRTree

VARIABLES n, ns
Init == n \in 1..MaxN /\ ns \in 2..MaxNs
Next == UNCHANGED <<n, ns>>
Spec == Init /\ [][Next]_<<n, ns>>

Refs == [i \in 1..n |-> [b |-> <<2 * (i - 1), 0, 2 * (i - 1), 0>>, o |-> i]]
Big(x) == V!OfNat(x)
Digits(x) == IF x = <<>> THEN 0 ELSE x[1]  \* all numbers here are below 4096

Agree ==
  LET nodes == P!Build(Refs, ns)
      lev == P!Levels(n, ns)
      blev == V!Levels(Big(n), ns)
  IN /\ Len(blev) = Len(lev)
     /\ \A k \in 1..Len(lev) : blev[k] = Big(lev[k]) /\ V!StartOf(blev, k) = Big(P!StartOf(lev, k))
     /\ V!IndexBytes(blev) = Big(40 * Len(nodes))
     /\ \A a \in 0..(2 * n + 2) : \A b \in a..(2 * n + 3) : \A miss \in BOOLEAN :
          LET q == [a |-> Big(a), b |-> Big(b), miss |-> miss]
              box == <<a, IF miss THEN 1 ELSE -1, b, 1>>
              hits == P!Hits(Refs, box)
              need == UNION {LET r == V!NeededAt(blev, ns, q, k)
                             IN IF r = <<>> THEN {}
                                ELSE {P!StartOf(lev, k) + x : x \in Digits(r[1][1])..(Digits(r[1][2]) - 1)}
                             : k \in 1..Len(lev)}
          IN /\ V!None(Big(n), q) <=> hits = <<>>
             /\ hits # <<>> =>
                  hits = [i \in 1..Len(hits) |-> Digits(V!First(q)) + i - 1]
                  /\ hits[Len(hits)] = Digits(V!LastHit(Big(n - 1), q))
             /\ need = P!Needed(nodes, lev, ns, box)
=============================================================================
