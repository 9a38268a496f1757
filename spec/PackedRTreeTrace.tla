-------------------------- MODULE PackedRTreeTrace --------------------------
(***************************************************************************)
(* Validation of sessions recorded from the real index code: trees built,  *)
(* serialized, loaded, cut short, searched in memory and in a stream.      *)
(***************************************************************************)
EXTENDS PackedRTree, TraceLib

VARIABLES l, refs, ns, nodes
vars == <<l, refs, ns, nodes>>

Init == l = 1 /\ refs = <<>> /\ ns = 2 /\ nodes = <<>>

RefOf(x) == [b |-> <<x[1], x[2], x[3], x[4]>>, o |-> x[5]]
Size == NodeBytes * Len(nodes)

Begin(e) ==
  /\ e.e = "begin"
  /\ refs' = [i \in 1..Len(e.refs) |-> RefOf(e.refs[i])]
  /\ ns' = e.ns
  /\ nodes' = Build(refs', ns')

\* The tree as built and serialized; the caller has since overwritten its
\* list of references.
New(e) ==
  /\ e.e = "new"
  /\ Len(e.nodes) = NumNodes(Len(refs), ns)
  /\ [i \in 1..Len(e.nodes) |-> RefOf(e.nodes[i])] = nodes
  /\ e.bounds = Bounds(refs) /\ e.count = Len(refs) /\ e.ns = ns
  /\ e.bytes = Size /\ e.reported = Size /\ e.size = Size
  /\ e.args

\* Loading: consumes exactly the index, and gives an equal tree.
Load(e) ==
  /\ e.e = "load"
  /\ e.c = "ok" /\ e.consumed = Size /\ e.same
  /\ e.bounds = Bounds(refs) /\ e.count = Len(refs) /\ e.ns = ns

LoadCut(e) ==
  /\ e.e = "loadcut"
  /\ e.c = (IF e.at < Size THEN "err" ELSE "ok")

\* The order of in-memory results is not defined.
Pairs(res) == [k \in 1..Len(res) |-> [o |-> res[k][1], i |-> res[k][2]]]
Search(e) ==
  /\ e.e = "search"
  /\ LET got == Pairs(e.res)
         want == HitSet(refs, e.b)
     IN /\ Len(got) = Cardinality(want)
        /\ {got[k] : k \in 1..Len(got)} = {Result(refs, i) : i \in want}

InOrder(e) == LET h == Hits(refs, e.b) IN Pairs(e.res) = [k \in 1..Len(h) |-> Result(refs, h[k])]

\* Streaming search of an index at start in a stream; pos: where the stream
\* is left; lo, hi: the range of bytes read.
Seek(e) ==
  /\ e.e = "seek"
  /\ e.c = "ok" /\ InOrder(e)
  /\ e.pos = e.start + Size
  /\ e.lo >= e.start /\ e.hi <= e.start + Size

\* The same on a damaged stream: an error, or the right answer.
SeekCut(e) ==
  /\ e.e = "seekcut"
  /\ e.c = "err" \/ (e.c = "ok" /\ InOrder(e))

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN \/ Begin(e)
        \/ (New(e) \/ Load(e) \/ LoadCut(e) \/ Search(e) \/ Seek(e) \/ SeekCut(e)) /\ UNCHANGED <<refs, ns, nodes>>

Spec == Init /\ [][Next]_vars
=============================================================================
