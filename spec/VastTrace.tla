----------------------------- MODULE VastTrace -----------------------------
(***************************************************************************)
(* Large indexes and files (up to 2^50 features, far too large to be       *)
(* stored), made up while they are read by the rules of VastTree.          *)
(* Recorded are trees built and loaded, their searches, streaming searches *)
(* and sessions of readers, with what was read, on whole and cut inputs.   *)
(***************************************************************************)
EXTENDS VastTree, TraceLib

VARIABLES l, f, nx, loaded
vars == <<l, f, nx, loaded>>
Init == l = 1 /\ f = [n |-> <<>>] /\ nx = <<>> /\ loaded = FALSE

\* Ranges rs are ascending, do not overlap, and lie in the ranges need.
RECURSIVE Within(_, _, _)
Within(lo, hi, need) ==
  IF Leq(hi, lo) THEN TRUE
  ELSE IF need = <<>> THEN FALSE
  ELSE LET r == Head(need)
       IN IF Leq(r[2], lo) THEN Within(lo, hi, Tail(need))
          ELSE Leq(r[1], lo) /\ Within(MinB(r[2], hi), hi, Tail(need))
RECURSIVE Ascending(_, _)
Ascending(rs, at) == IF rs = <<>> THEN TRUE ELSE Leq(at, rs[1][1]) /\ Ascending(Tail(rs), rs[1][2])
Only(rs, need) == Ascending(rs, <<>>) /\ \A i \in 1..Len(rs) : Within(rs[i][1], rs[i][2], need)

-----------------------------------------------------------------------------
(* at: where the index starts; size: bytes of a feature; top: the last one; *)
(* end: where the input ends (if cut, before the end of the file); seek:   *)
(* can the input seek; strict: is what is read part of the property.       *)
Begin(e) ==
  /\ e.e = "begin"
  /\ Plus1(e.top) = e.n
  /\ LET lev == Levels(e.n, e.ns)
         data == Add(e.at, IndexBytes(lev))
     IN f' = [n |-> e.n, ns |-> e.ns, top |-> e.top, lev |-> lev, at |-> e.at, size |-> e.size,
              data |-> data, strict |-> e.strict, seek |-> e.seek,
              end |-> IF e.cut THEN e.end ELSE Add(data, Mul(e.n, e.size))]
  /\ nx' = <<>> /\ loaded' = FALSE

Found(e) ==
  IF None(f.n, e.q) THEN e.count = <<>>
  ELSE e.first = First(e.q) /\ e.last = LastHit(f.top, e.q) /\ Add(e.first, e.count) = Plus1(e.last)

Index == <<<<f.at, f.data>>>>

\* The bytes of the features from i to before j; are those before j there?
FeatsEnd(j) == Add(f.data, Mul(j, f.size))
Feats(i, j) == <<<<FeatsEnd(i), FeatsEnd(j)>>>>
There(j) == Leq(FeatsEnd(j), f.end)

\* A tree was built or loaded (count, node size and bounds are as they should
\* be, and it serializes to these very bytes: same).
IsTree(e) == e.refs = f.n /\ e.ns = f.ns /\ e.bounds = <<<<>>, <<>>, Mul(f.top, 2), <<>>>> /\ e.same

Build(e) ==
  /\ e.e = "build"
  /\ e.c = "ok" /\ IsTree(e)
  /\ loaded' = TRUE /\ UNCHANGED <<f, nx>>

\* The file was written, by one call for index and data or by many.
Write(e) == e.e = "write" /\ e.c = "ok" /\ e.same /\ e.pos = f.end /\ UNCHANGED <<f, nx, loaded>>

\* Loading takes the index and nothing else, and fails if it is cut.
Load(e) ==
  /\ e.e = "load"
  /\ IF There(<<>>) THEN e.c = "ok" /\ IsTree(e) /\ e.pos = f.data ELSE e.c = "err"
  /\ Only(e.reads, IF f.strict /\ loaded THEN <<>> ELSE Index)
  /\ loaded' = (loaded \/ e.c = "ok") /\ UNCHANGED <<f, nx>>

\* In memory.
Hits(e) == e.e = "hits" /\ loaded /\ Found(e) /\ UNCHANGED <<f, nx, loaded>>

Seek(e) ==
  /\ e.e = "seek"
  /\ \/ e.c = "ok" /\ Found(e) /\ e.pos = f.data
     \/ e.c = "err" /\ ~There(<<>>)
  /\ Only(e.reads, IF f.strict THEN Needed(f.lev, f.ns, e.q, f.at) ELSE Index)
  /\ UNCHANGED <<f, nx, loaded>>

Search(e) ==
  LET none == None(f.n, e.q)
      upto == Plus1(LastHit(f.top, e.q))
  IN /\ e.e = "search"
     /\ IF There(<<>>) /\ (none \/ There(upto)) THEN e.c = "ok" /\ Found(e)
        \* Of a cut index, the part without matches may be enough.
        ELSE e.c = "err" \/ (e.c = "ok" /\ none /\ f.seek /\ e.count = <<>>)
     /\ e.c = "err" => (e.count = <<>> \/ (e.first = First(e.q) /\ There(Plus1(e.last)) /\ ~none))
     /\ (f.strict /\ f.seek /\ e.c = "ok") =>
          /\ Only(e.reads, (IF loaded THEN <<>> ELSE Needed(f.lev, f.ns, e.q, f.at)) \o
                           (IF none THEN <<>> ELSE Feats(First(e.q), upto)))
          /\ ~none => e.pos = FeatsEnd(upto)
     /\ UNCHANGED <<f, nx, loaded>>

Data(e) ==
  /\ e.e = "data"
  /\ LET to == IF e.rem THEN f.n ELSE MinB(Add(nx, OfNat(e.k)), f.n)
     IN IF ~There(to)
        THEN /\ e.c = "err" \/ (e.c = "ok" /\ e.k = 0)
             /\ (e.count # <<>>) => e.first = nx /\ There(Plus1(e.last)) /\ Add(nx, e.count) = Plus1(e.last)
             /\ ~There(Plus1(Add(nx, e.count)))
             /\ nx' = nx
        ELSE /\ e.c = IF to = f.n /\ ~e.rem THEN "eof" ELSE "ok"
             /\ Add(nx, e.count) = to
             /\ nx # to => e.first = nx /\ Plus1(e.last) = to
             /\ nx' = to
             /\ (f.strict /\ f.seek) => (Only(e.reads, Feats(nx, to)) /\ (nx # to => e.pos = FeatsEnd(to)))
  /\ UNCHANGED <<f, loaded>>

Rewind(e) ==
  /\ e.e = "rewind"
  /\ IF f.seek THEN e.c = "ok" /\ nx' = <<>> ELSE e.c = "err" /\ nx' = nx
  /\ e.reads = <<>>
  /\ UNCHANGED <<f, loaded>>

\* More was read than the driver is willing to make up: only P19 is about this.
TooMuch(e) == e.e = "toomuch" /\ ~f.strict /\ UNCHANGED <<f, nx, loaded>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN Begin(e) \/ Write(e) \/ Build(e) \/ Load(e) \/ Hits(e) \/ Seek(e) \/ Search(e) \/ Data(e) \/ Rewind(e) \/ TooMuch(e)
Spec == Init /\ [][Next]_vars
=============================================================================
