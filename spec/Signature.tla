----------------------------- MODULE Signature -----------------------------
(***************************************************************************)
(* Which byte sequences are accepted as the start of a file.               *)
(*                                                                         *)
(* A file is given by its first bytes b and the number z of zero bytes     *)
(* that follow.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Size(f) == Len(f.b) + f.z
At(f, i) == IF i < Len(f.b) THEN f.b[i + 1] ELSE 0        \* i counts from 0

Fixed == <<102, 103, 98, 0, 102, 103, 98, 0>>             \* 0: a version byte
MagicOk(f) == Size(f) >= 8 /\ \A i \in {0, 1, 2, 4, 5, 6} : At(f, i) = Fixed[i + 1]
Major(f) == At(f, 3)
Patch(f) == At(f, 7)

U16(f, i) == At(f, i) + 256 * At(f, i + 1)
U24(f, i) == U16(f, i) + 65536 * At(f, i + 2)
U32Small(f, i) == At(f, i + 3) < 16                       \* below 2^28
U32(f, i) == U24(f, i) + 16777216 * At(f, i + 3)          \* only if small
HeaderMax == 33554432                                     \* 32 MiB

\* The declared header length is allowed and the header is there.
LengthOk(f) == /\ Size(f) >= 12 /\ U32Small(f, 8)
               /\ U32(f, 8) >= 4 /\ U32(f, 8) <= HeaderMax
               /\ Size(f) >= 12 + U32(f, 8)

-----------------------------------------------------------------------------
(* The header table, a FlatBuffers root table in the bytes [8, End(f)).    *)
End(f) == 12 + U32(f, 8)
In(f, i, w) == 8 <= i /\ i + w <= End(f)

\* Position of the root table, relative to byte 8; -1 if it is outside, -2 if
\* the addition wraps around.
Root(f) == IF At(f, 15) = 255 /\ At(f, 14) = 255 /\ At(f, 13) = 255 /\ At(f, 12) >= 252 THEN 0 - 2
           ELSE IF ~U32Small(f, 12) THEN 0 - 1
           ELSE IF In(f, 8 + 4 + U32(f, 12), 4) THEN 4 + U32(f, 12) ELSE 0 - 1

\* The virtual table is at the root's position minus a signed offset.
Vtable(f) ==
  LET p == 8 + Root(f)
      s == IF At(f, p + 3) < 16 THEN U32(f, p)
           ELSE IF At(f, p + 3) >= 240 THEN U24(f, p) + 16777216 * (At(f, p + 3) - 256)
           ELSE 0 - 1000000000
      v == p - s
  IN IF s # 0 - 1000000000 /\ In(f, v, 2) THEN v ELSE 0 - 1

\* Field of a slot: ok, present, position.
Outside == [ok |-> FALSE, there |-> FALSE, p |-> 0]
Field(f, slot, w) ==
  LET v == Vtable(f) e == v + 4 + 2 * slot
  IN IF 4 + 2 * slot >= U16(f, v) THEN [ok |-> TRUE, there |-> FALSE, p |-> 0]
     ELSE IF ~In(f, e, 2) THEN Outside
     ELSE IF U16(f, e) = 0 THEN [ok |-> TRUE, there |-> FALSE, p |-> 0]
     ELSE IF ~In(f, 8 + Root(f) + U16(f, e), w) THEN Outside
     ELSE [ok |-> TRUE, there |-> TRUE, p |-> 8 + Root(f) + U16(f, e)]

CountSlot == 8
NodeSizeSlot == 9
Unreadable(f) ==
  \/ Root(f) = 0 - 1
  \/ /\ Root(f) >= 0
     /\ \/ Vtable(f) = 0 - 1
        \/ ~Field(f, CountSlot, 8).ok
        \/ ~Field(f, NodeSizeSlot, 2).ok
\* Counts fit a signed int of this many bits.
CountOk(f, bits) == LET c == Field(f, CountSlot, 8)
                    IN c.there => IF bits = 64 THEN At(f, c.p + 7) < 128
                                  ELSE At(f, c.p + 3) < 128 /\ \A i \in 4..7 : At(f, c.p + i) = 0
NodeSizeOk(f) == LET s == Field(f, NodeSizeSlot, 2) IN s.there => U16(f, s.p) # 1

\* "yes", "no", or "open" where the position of the table wraps around.  A
\* table is readable if what the reader needs of it is: where it is, its
\* virtual table and these two fields.
Accept(f, bits) ==
  IF ~MagicOk(f) THEN "no"
  ELSE IF Major(f) # 3 THEN "no"
  ELSE IF ~LengthOk(f) THEN "no"
  ELSE IF Root(f) = 0 - 2 THEN "open"
  ELSE IF Unreadable(f) THEN "no"
  ELSE IF ~CountOk(f, bits) \/ ~NodeSizeOk(f) THEN "no"
  ELSE "yes"
=============================================================================
