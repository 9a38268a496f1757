----------------------------- MODULE PropsTrace -----------------------------
(***************************************************************************)
(* Recorded sessions of a property writer and property readers on one      *)
(* stream, and of whole sections decoded against a schema.                 *)
(***************************************************************************)
EXTENDS Props, TraceLib

VARIABLES l,
          s,        \* bytes accepted by the stream
          p,        \* position of the reader
          stuck     \* the reader failed: its position is not known any more
vars == <<l, s, p, stuck>>
Init == l = 1 /\ s = <<>> /\ p = 0 /\ stuck = FALSE

Begin(e) == e.e = "begin" /\ s' = <<>> /\ p' = 0 /\ stuck' = FALSE

\* A write emits the value's bytes and counts them.  If the stream fails, the
\* write returns its error, and counts what was accepted.
Write(e) ==
  /\ e.e = "write"
  /\ LET b == Encode(e.t, e.v)
     IN IF e.fault
        THEN /\ ~e.ok /\ e.injected /\ e.n = e.took /\ e.took <= Len(b)
             /\ s' = s \o SubSeq(b, 1, e.took)
        ELSE e.ok /\ e.n = Len(b) /\ s' = s \o b
  /\ UNCHANGED <<p, stuck>>

\* All bytes the stream accepted.
Bytes(e) == e.e = "bytes" /\ e.b = s /\ UNCHANGED <<s, p, stuck>>

\* A new reader on the first bytes of the stream.
Reader(e) == e.e = "reader" /\ p' = 0 /\ s' = SubSeq(s, 1, e.cut) /\ stuck' = FALSE

Same(e, v) == IF e.dev THEN e.t = TInt /\ e.v # v /\ e.v = IntAsFound(v) ELSE e.v = v
Read(e) ==
  /\ e.e = "read" /\ ~stuck
  /\ LET d == DecodeAt(e.t, s, p)
     IN /\ e.ok = d.ok
        /\ d.ok => Same(e, d.v) /\ p' = d.next
        /\ ~d.ok => p' = p
        /\ stuck' = ~d.ok
  /\ s' = s

\* Decoding the stream from the reader's position, as a section.  If it works,
\* the reader is at the end, and can go on there when more comes.
\* e.xs: column index, type, value and name of the column of each pair.
Section(e) ==
  /\ e.e = "section" /\ ~stuck
  /\ \E d \in {DecodeWide(e.schema, e.cols, SubSeq(s, p + 1, Len(s)))} :
        /\ e.ok = d.ok
        /\ d.ok => /\ Len(e.xs) = Len(d.xs)
                   /\ \A i \in 1..Len(d.xs) :
                        /\ e.xs[i].c = d.xs[i].c /\ e.xs[i].col = d.xs[i].c
                        /\ e.xs[i].t = ColType(e.schema, d.xs[i].c)
                        /\ Same(e.xs[i], d.xs[i].v)
        /\ e.left = 0 \/ ~d.ok
        /\ stuck' = ~d.ok
  /\ p' = Len(s) /\ s' = s
Feed(e) == e.e = "feed" /\ s' = s \o e.b /\ UNCHANGED <<p, stuck>>

Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Begin(e) \/ Write(e) \/ Bytes(e) \/ Reader(e) \/ Read(e) \/ Section(e) \/ Feed(e)
Spec == Init /\ [][Next]_vars
=============================================================================
