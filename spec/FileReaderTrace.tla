-------------------------- MODULE FileReaderTrace --------------------------
(***************************************************************************)
(* Validation of sessions recorded from the real FileReader, on files of   *)
(* any size.  The matching features of every search are computed here,     *)
(* from the coordinates of the features.  pos is the set of positions the  *)
(* reader may be in (more than one where FileReader leaves a choice).      *)
(***************************************************************************)
EXTENDS FileReader, Geometry, TraceLib

VARIABLES l, f, boxes, pos
vars == <<l, f, boxes, pos>>

NoFile == [n |-> 0]
Init == l = 1 /\ f = NoFile /\ boxes = <<>> /\ pos = {}

\* Features are logged as ranges.
RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>>
              ELSE Run(rs[1][1] - 1, rs[1][2]) \o Expand(Tail(rs))

Begin(e) ==
  /\ e.e = "begin"
  /\ f' = [n |-> e.n, known |-> e.known, idx |-> e.idx, seek |-> e.seek,
           cut |-> e.cut, m |-> e.m, clean |-> e.clean, cerr |-> e.cerr]
  /\ boxes' = [i \in 1..Len(e.geoms) |-> BoxOfGeom(e.geoms[i])]
  /\ pos' = {<<"new", 0>>}

CallOf(e) ==
  CASE e.op = "Search" -> [op |-> "Search", h |-> Matches(boxes, e.b)]
    [] e.op = "Data"   -> [op |-> "Data", k |-> e.k]
    [] OTHER           -> [op |-> e.op]

Answer(e) ==
  /\ e.e = "call"
  /\ LET c == CallOf(e)
         o == Ans(e.c, Expand(e.fs), e.t)
         to(p) == {r \in (IF e.flt THEN FaultResp(f, p[1], p[2], c) ELSE Resp(f, p[1], p[2], c)) : r.o = o}
     IN pos' = UNION {{<<r.st, r.nx>> : r \in to(p)} : p \in pos}
  /\ pos' # {}
  /\ UNCHANGED <<f, boxes>>

\* Nothing returned earlier has changed, and the stream was closed once
\* if and only if the reader was closed.
End(e) ==
  /\ e.e = "end"
  /\ e.intact
  /\ e.closes = (IF \E p \in pos : p[1] = "closed" THEN 1 ELSE 0)
  /\ UNCHANGED <<f, boxes, pos>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN Begin(e) \/ Answer(e) \/ End(e)

Spec == Init /\ [][Next]_vars
=============================================================================
