------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* Property values as bytes.                                               *)
(*                                                                         *)
(* A value of a fixed-width type is given by its bit pattern, as a         *)
(* sequence of 16-bit limbs, lowest first; a Boolean by <<0>> or <<1>>; a  *)
(* text or binary value by its bytes.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

\* Column types, numbered as in the FlatGeobuf schema.
TByte == 0   TUByte == 1   TBool == 2   TShort == 3   TUShort == 4
TInt == 5    TUInt == 6    TLong == 7   TULong == 8   TFloat == 9
TDouble == 10  TString == 11  TJson == 12  TDateTime == 13  TBinary == 14
Types == 0..14

VarTypes == {TString, TJson, TDateTime, TBinary}
Width(t) == IF t \in {TByte, TUByte, TBool} THEN 1
            ELSE IF t \in {TShort, TUShort} THEN 2
            ELSE IF t \in {TInt, TUInt, TFloat} THEN 4
            ELSE 8
Limbs(t) == (Width(t) + 1) \div 2

\* Little-endian bytes of limbs.
LimbByte(v, k) == IF k % 2 = 1 THEN v[(k + 1) \div 2] % 256 ELSE v[k \div 2] \div 256
FixedBytes(t, v) == [k \in 1..Width(t) |-> LimbByte(v, k)]
CountBytes(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>

Encode(t, v) == IF t \in VarTypes THEN CountBytes(Len(v)) \o v ELSE FixedBytes(t, v)

-----------------------------------------------------------------------------
(* Decoding at position p (0 is the start) of the bytes s.                 *)
Failed == [ok |-> FALSE, v |-> <<>>, next |-> 0]
Good(v, n) == [ok |-> TRUE, v |-> v, next |-> n]

Limb(s, p, k, w) == s[p + 2 * k - 1] + (IF 2 * k <= w THEN 256 * s[p + 2 * k] ELSE 0)
FixedAt(t, s, p) ==
  IF p + Width(t) > Len(s) THEN Failed
  ELSE IF t = TBool THEN Good(<<IF s[p + 1] = 0 THEN 0 ELSE 1>>, p + 1)
  ELSE Good([k \in 1..Limbs(t) |-> Limb(s, p, k, Width(t))], p + Width(t))

\* A count of 2^24 or more is beyond any stream here.
VarAt(s, p) ==
  IF p + 4 > Len(s) THEN Failed
  ELSE IF s[p + 4] # 0 THEN Failed
  ELSE LET n == s[p + 1] + 256 * s[p + 2] + 65536 * s[p + 3]
       IN IF p + 4 + n > Len(s) THEN Failed
          ELSE Good(SubSeq(s, p + 5, p + 4 + n), p + 4 + n)

DecodeAt(t, s, p) == IF t \in VarTypes THEN VarAt(s, p) ELSE FixedAt(t, s, p)

-----------------------------------------------------------------------------
(* A property section: pairs <<column index, value>>, each column index an *)
(* unsigned 16-bit number.  schema is the sequence of column types.        *)
(* An undefined type can be declared; its values cannot be decoded.        *)
(* A schema of n columns repeats the types of schema.                      *)
ColType(schema, c) == schema[(c % Len(schema)) + 1]
EncodePair(schema, x) == FixedBytes(TUShort, <<x.c>>) \o Encode(schema[x.c + 1], x.v)

RECURSIVE EncodeSection(_, _)
EncodeSection(schema, xs) ==
  IF xs = <<>> THEN <<>> ELSE EncodePair(schema, Head(xs)) \o EncodeSection(schema, Tail(xs))

BadSection == [ok |-> FALSE, xs |-> <<>>]
\* One more pair; at: the position, or Len(s) + 1 when a pair is not right.
NextPair(schema, n, s, a) ==
  IF a.at >= Len(s) THEN a
  ELSE LET bad == [at |-> Len(s) + 1, xs |-> <<>>]
           i == FixedAt(TUShort, s, a.at)
       IN IF ~i.ok THEN bad
          ELSE LET c == i.v[1]
               IN IF c >= n THEN bad
                  ELSE IF ColType(schema, c) \notin Types THEN bad
                  ELSE LET d == DecodeAt(ColType(schema, c), s, i.next)
                       IN IF d.ok THEN [at |-> d.next, xs |-> Append(a.xs, [c |-> c, v |-> d.v])] ELSE bad
AllPairs(schema, n, s) == FoldLeft(LAMBDA x, y : NextPair(schema, n, s, x), [at |-> 0, xs |-> <<>>], s)
\* (The sets of one element make TLC evaluate the bytes, and the pairs, once.)
DecodeWide(schema, n, s) ==
  CHOOSE d \in { IF a.at = Len(s) THEN [ok |-> TRUE, xs |-> a.xs] ELSE BadSection : a \in {AllPairs(schema, n, b) : b \in {s}} } : TRUE
DecodeSection(schema, s) == DecodeWide(schema, Len(schema), s)

-----------------------------------------------------------------------------
(* KNOWN FINDING readint-low-byte: reading an Int returns its lowest byte  *)
(* (pinned by ExampleFileReader_unknownFeatureCount).                      *)
IntAsFound(v) == <<v[1] % 256, 0>>
=============================================================================
