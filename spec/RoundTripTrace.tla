--------------------------- MODULE RoundTripTrace ---------------------------
(***************************************************************************)
(* Sessions with the real writer followed by sessions with the real reader *)
(* on what was written.  The writer follows FileWriter; an independent     *)
(* tokenization of the output must give exactly the units emitted; and     *)
(* every reader session must follow FileReader for the file which those    *)
(* units make up, whatever was written before the writer stopped.          *)
(*                                                                         *)
(* Units and features are logged by name.  Features of equal content have  *)
(* equal names, so that a read is checked for content and order.           *)
(***************************************************************************)
EXTENDS FileReader, Geometry, TraceLib

W == INSTANCE FileWriter

\* plan: the features which every index is built for.
VARIABLES l, d, wpos, out, whole, boxes, plan, f, feats, pos
vars == <<l, d, wpos, out, whole, boxes, plan, f, feats, pos>>

Init == /\ l = 1 /\ d = [n |-> 0] /\ wpos = {} /\ out = <<>> /\ whole = TRUE
        /\ boxes = <<>> /\ plan = <<>> /\ f = [n |-> 0] /\ feats = <<>> /\ pos = {}

Begin(e) ==
  /\ e.e = "begin"
  /\ d' = [n |-> e.n, ns |-> e.ns, cerr |-> e.cerr]
  /\ wpos' = {<<"new", 0>>} /\ out' = <<>> /\ whole' = TRUE
  /\ boxes' = [x \in DOMAIN e.geoms |-> BoxOfGeom(e.geoms[x])]
  /\ plan' = e.plan
  /\ f' = [n |-> 0] /\ feats' = <<>> /\ pos' = {}

WCall(e) ==
  CASE e.op = "Header"    -> [op |-> e.op, arg |-> e.arg]
    [] e.op = "Index"     -> [op |-> e.op, ix |-> e.ix]
    [] e.op = "IndexData" -> [op |-> e.op, fs |-> e.fs]
    [] e.op = "Data"      -> [op |-> e.op, x |-> e.x]
    [] OTHER              -> [op |-> e.op]

Write(e) ==
  /\ e.e = "w"
  /\ LET c == WCall(e)
         o == W!Ans(e.c, e.out, e.part)
         to(p) == {r \in (IF e.flt THEN W!FaultResp(d, p[1], p[2], c) ELSE W!Resp(d, p[1], p[2], c)) : r.o = o}
     IN wpos' = UNION {{<<r.st, r.cnt>> : r \in to(p)} : p \in wpos}
  /\ wpos' # {}
  /\ e.n = e.delta
  /\ out' = out \o e.out /\ whole' = (whole /\ ~e.part)
  /\ UNCHANGED <<d, boxes, plan, f, feats, pos>>

\* The independent tokenization of everything emitted; closes: how often the
\* writer closed its stream.
Layout(e) ==
  /\ e.e = "layout"
  /\ e.units = out
  /\ e.rest = 0 \/ ~whole
  /\ e.closes = (IF \E p \in wpos : p[1] = "closed" THEN 1 ELSE 0)
  /\ feats' = SelectSeq(out, LAMBDA u : u \notin {"M", "H", "I"})
  /\ UNCHANGED <<d, wpos, out, whole, boxes, plan, f, pos>>

\* The file made up by the units.
FileOf(sk, ce) ==
  LET have  == Len(feats)
      known == d.n > 0
      idx   == known /\ d.ns > 0
      cut   == IF Len(out) < 2 THEN "hdr" ELSE IF idx /\ Len(out) < 3 THEN "idx" ELSE "data"
  IN [n |-> IF known THEN d.n ELSE have, known |-> known, idx |-> idx, seek |-> sk,
      cerr |-> ce, cut |-> cut, m |-> have, clean |-> whole \/ cut # "data"]

Open(e) ==
  /\ e.e = "open"
  /\ f' = FileOf(e.seek, e.cerr)
  /\ pos' = {<<"new", 0>>}
  /\ UNCHANGED <<d, wpos, out, whole, boxes, plan, feats>>

RCall(e) ==
  CASE e.op = "Search" ->
         [op |-> "Search", h |-> SelectSeq([i \in 1..Len(plan) |-> i], LAMBDA i : Meet(boxes[plan[i]], e.b))]
    [] e.op = "Data"   -> [op |-> "Data", k |-> e.k]
    [] OTHER           -> [op |-> e.op]

Read(e) ==
  /\ e.e = "r"
  /\ LET c == RCall(e)
         named(fs) == [i \in 1..Len(fs) |-> feats[fs[i]]]
         to(p) == {r \in Resp(f, p[1], p[2], c) : r.o.c = e.c /\ r.o.t = e.t /\ named(r.o.fs) = e.fs}
     IN pos' = UNION {{<<r.st, r.nx>> : r \in to(p)} : p \in pos}
  /\ pos' # {}
  /\ UNCHANGED <<d, wpos, out, whole, boxes, plan, f, feats>>

\* Everything returned is still what it was; the stream was closed once if
\* and only if the reader was closed.
End(e) ==
  /\ e.e = "end"
  /\ e.intact
  /\ e.closes = (IF \E p \in pos : p[1] = "closed" THEN 1 ELSE 0)
  /\ UNCHANGED <<d, wpos, out, whole, boxes, plan, f, feats, pos>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN Begin(e) \/ Write(e) \/ Layout(e) \/ Open(e) \/ Read(e) \/ End(e)

Spec == Init /\ [][Next]_vars
=============================================================================
