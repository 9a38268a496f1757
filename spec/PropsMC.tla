------------------------------ MODULE PropsMC ------------------------------
(***************************************************************************)
(* Property values written to and read from a stream, one call at a time.  *)
(* The stream may be cut between writing and reading.  Schemas and value   *)
(* lists are enumerated; every byte sequence and all results are exported. *)
(***************************************************************************)
EXTENDS Props, FiniteSets, TLC, Json

CONSTANTS OneCol,      \* types of schemas of one column (up to 2 values)
          TwoCol,      \* types of schemas of two columns (up to 2 values)
          MaxVals

\* Values of a type which tell every byte and every sign apart.
Vals(t) ==
  IF t = TBool THEN {<<0>>, <<1>>}
  ELSE IF t \in VarTypes THEN {<<>>, <<7>>, <<0, 255, 128>>}
  ELSE IF Width(t) = 1 THEN {<<0>>, <<129>>}
  ELSE IF Width(t) = 2 THEN {<<513>>, <<65408>>}
  ELSE IF Width(t) = 4 THEN {<<513, 1027>>, <<65408, 33153>>}
  ELSE {<<513, 1027, 1541, 2055>>, <<65408, 33153, 0, 65520>>}

Schemas == {<<t>> : t \in OneCol} \cup {<<t, u>> : t \in TwoCol, u \in TwoCol}
Known(schema) == {i \in 1..Len(schema) : schema[i] \in Types}
Pairs(schema) == UNION {{[c |-> i - 1, v |-> v] : v \in Vals(schema[i])} : i \in Known(schema)}
Lists(schema) == UNION {[1..k -> Pairs(schema)] : k \in 0..MaxVals}

VARIABLES schema, todo,    \* pairs still to be written
          stream,          \* bytes in the stream
          wrote, n,        \* pairs written, bytes reported
          pos, got         \* reading position, pairs read
vars == <<schema, todo, stream, wrote, n, pos, got>>

Init == /\ schema \in Schemas
        /\ todo \in Lists(schema)
        /\ stream = <<>> /\ wrote = <<>> /\ n = 0 /\ pos = 0 /\ got = <<>>
Write == /\ todo # <<>>
         /\ LET b == EncodePair(schema, Head(todo))
            IN stream' = stream \o b /\ n' = n + Len(b)
         /\ wrote' = Append(wrote, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<schema, pos, got>>
Read == /\ pos < Len(stream)
        /\ LET i == FixedAt(TUShort, stream, pos)
               d == DecodeAt(schema[i.v[1] + 1], stream, i.next)
           IN pos' = d.next /\ got' = Append(got, [c |-> i.v[1], v |-> d.v])
        /\ UNCHANGED <<schema, todo, stream, wrote, n>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

\* What is read is what was written, in order; nothing is left over at the end.
Fifo == /\ Len(got) <= Len(wrote)
        /\ \A i \in 1..Len(got) : got[i] = wrote[i]
        /\ (pos = Len(stream)) = (Len(got) = Len(wrote))
Counted == n = Len(stream)
\* Decoding the section at once gives the same; a section cut inside a pair is
\* an error, one cut between pairs is a shorter section.
AtOnce == todo = <<>> =>
  /\ DecodeSection(schema, stream) = [ok |-> TRUE, xs |-> wrote]
  /\ \A k \in 0..Len(stream) :
       LET d == DecodeSection(schema, SubSeq(stream, 1, k))
       IN d.ok => \E m \in 0..Len(wrote) : /\ d.xs = SubSeq(wrote, 1, m)
                                           /\ k = Len(EncodeSection(schema, d.xs))

-----------------------------------------------------------------------------
\* One row per schema and list: its bytes, and the number of pairs decoded
\* from every prefix (99: an error).
Cuts(s, b) == [k \in 1..(Len(b) + 1) |->
                LET d == DecodeSection(s, SubSeq(b, 1, k - 1)) IN IF d.ok THEN Len(d.xs) ELSE 99]
\* Bytes that are no pair of the schema: column indexes outside it, and a
\* value of an undefined type.
Wrong(s) == {<<Len(s), 0, 1, 1, 1, 1, 1, 1, 1, 1>>, <<0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 0, 0, 0, 0>>}
            \cup {<<i - 1, 0, 0, 0, 0, 0>> : i \in (1..Len(s)) \ Known(s)}
Row == LET b == EncodeSection(schema, todo)
       IN [schema |-> schema, xs |-> todo, b |-> b, cuts |-> Cuts(schema, b),
           wrong |-> {[b |-> b \o w, ok |-> DecodeSection(schema, b \o w).ok] : w \in Wrong(schema)}]
Export == PrintT("ROW " \o ToJson(Row))
ExportSpec == Init /\ [][FALSE]_vars
=============================================================================
