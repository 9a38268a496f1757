---------------------------- MODULE AccessTrace ----------------------------
(***************************************************************************)
(* Which bytes a reader takes from its input.                              *)
(*                                                                         *)
(* Sessions of the real FileReader on whole files which lie somewhere in   *)
(* a larger stream, with what was read during every call: index nodes and  *)
(* features (as ranges, in the order in which they were read), and whether *)
(* the header was.  Reading must be confined to what the answer needs,     *)
(* each call reads forward only, and the input is left exactly where the   *)
(* next section or feature begins (at: what ends at this place, if         *)
(* anything does).                                                         *)
(***************************************************************************)
EXTENDS FileReader, PackedRTree, TraceLib

VARIABLES l, f, boxes, ns, lev, nodes, pos, loaded
vars == <<l, f, boxes, ns, lev, nodes, pos, loaded>>

Init == l = 1 /\ f = [n |-> 0] /\ boxes = <<>> /\ ns = 2 /\ lev = <<>> /\ nodes = <<>> /\ pos = {} /\ loaded = FALSE

RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>> ELSE Run(rs[1][1] - 1, rs[1][2]) \o Expand(Tail(rs))

\* perm: the features in the order of the leaves.
Begin(e) ==
  /\ e.e = "begin"
  /\ f' = [n |-> e.n, known |-> e.known, idx |-> e.idx, seek |-> e.seek, cut |-> "data", m |-> e.n, clean |-> TRUE, cerr |-> FALSE]
  /\ boxes' = [i \in 1..Len(e.geoms) |-> BoxOfGeom(e.geoms[i])]
  /\ ns' = IF e.idx THEN e.ns ELSE 2
  /\ lev' = IF e.idx THEN Levels(e.n, e.ns) ELSE <<>>
  /\ nodes' = IF e.idx THEN Build([i \in 1..e.n |-> [b |-> boxes'[e.perm[i]], o |-> 0]], e.ns) ELSE <<>>
  /\ pos' = {<<"new", 0>>} /\ loaded' = FALSE

CallOf(e) ==
  CASE e.op = "Search" -> [op |-> "Search", h |-> Matches(boxes, e.b)]
    [] e.op = "Data"   -> [op |-> "Data", k |-> e.k]
    [] OTHER           -> [op |-> e.op]

Elements(rs) == UNION {rs[i][1]..rs[i][2] : i \in 1..Len(rs)}
AllNodes == IF f.idx THEN 0..(Len(nodes) - 1) ELSE {}

(* What may be read during a call that was answered with fs.  Without      *)
(* seeking, skipping means reading.                                        *)
Allowed(e, fs) ==
  LET skipped == IF f.seek THEN {} ELSE AllNodes
      nothing == [hdr |-> FALSE, nodes |-> {}, feats |-> {}]
  IN IF e.c \notin {"ok", "eof", "noindex"} THEN nothing
     ELSE CASE e.op = "Header" -> [nothing EXCEPT !.hdr = TRUE]
            [] e.op = "Index"  -> [nothing EXCEPT !.nodes = IF loaded THEN {} ELSE AllNodes]
            [] e.op = "Search" /\ e.c = "ok" ->
                 [nothing EXCEPT !.nodes = IF loaded THEN {} ELSE IF f.seek THEN Needed(nodes, lev, ns, e.b) ELSE AllNodes,
                                 !.feats = IF f.seek \/ fs = <<>> THEN Elems(fs) ELSE 1..fs[Len(fs)]]
            [] e.op \in {"Data", "DataRem"} -> [nothing EXCEPT !.nodes = skipped, !.feats = Elems(fs)]
            [] OTHER -> nothing

\* Where the input has to be left: after the header, the index, or a feature.
Left(e, fs) ==
  CASE e.op = "Header" /\ e.c = "ok" -> {"hdr"}
    [] e.op = "Index" /\ e.c = "ok" -> {"idx"}
    [] e.op \in {"Data", "DataRem", "Search"} /\ e.c \in {"ok", "eof"} /\ fs # <<>> -> {ToString(fs[Len(fs)])}
    [] OTHER -> Elems(e.at)

Answer(e) ==
  /\ e.e = "call"
  /\ LET c == CallOf(e)
         fs == Expand(e.fs)
         o == Ans(e.c, fs, e.t)
         a == Allowed(e, fs)
     IN /\ pos' = UNION {{<<r.st, r.nx>> : r \in {x \in Resp(f, p[1], p[2], c) : x.o = o}} : p \in pos}
        /\ pos' # {}
        /\ e.forward /\ ~e.outside
        /\ e.hdr => a.hdr
        /\ Elements(e.nodes) \subseteq a.nodes
        /\ Elements(e.feats) \subseteq a.feats
        /\ Elems(e.at) \cap Left(e, fs) # {} \/ Left(e, fs) = {}
        /\ loaded' = (loaded \/ (e.op = "Index" /\ e.t = "tree"))
  /\ UNCHANGED <<f, boxes, ns, lev, nodes>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN Begin(e) \/ Answer(e)

Spec == Init /\ [][Next]_vars
=============================================================================
