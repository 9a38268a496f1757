----------------------------- MODULE FileWriter -----------------------------
(***************************************************************************)
(* Abstract specification of flatgeobuf.FileWriter.                        *)
(*                                                                         *)
(* A writer is used to produce one file with the declared shape            *)
(*   d.n    declared number of features, 0: unknown                        *)
(*   d.ns   declared index node size, 0: no index                          *)
(*   d.cerr closing the underlying stream returns an error                 *)
(* Its abstract state is a position st and the number cnt of features      *)
(* written.  What a call emits is a sequence of units: "M" (magic number), *)
(* "H" (the header), "I" (the index) and features.  Resp gives the allowed *)
(* answers to a call with the units it must emit; FaultResp the allowed    *)
(* answers if the output stream fails during the call.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Positions == {"new", "hdr", "idx", "data", "eof", "failed", "hfailed", "closed"}

\* An answer: class and emitted units; part: a unit was emitted in part.
Ans(c, out, part) == [c |-> c, out |-> out, part |-> part]
Fails == Ans("err", <<>>, FALSE)
R(o, st, cnt) == [o |-> o, st |-> st, cnt |-> cnt]
Stay(st, cnt) == {R(Fails, st, cnt)}

BadFeature == "bad"

\* How many features may follow: all further ones if the count is unknown.
Room(d, cnt) == d.n = 0 \/ cnt < d.n
After(d, cnt) == IF d.n > 0 /\ cnt = d.n THEN "eof" ELSE "data"

-----------------------------------------------------------------------------
(* Header(arg): "good"; "refused": a well-formed header with a value that  *)
(* is not allowed (node size 1, or too many features); "bad": not a        *)
(* complete size-prefixed table.                                           *)
HeaderResp(d, st, cnt, arg) ==
  IF st # "new" THEN Stay(st, cnt)
  ELSE CASE arg = "good"    -> {R(Ans("ok", <<"M", "H">>, FALSE), "hdr", 0)}
         [] arg = "refused" -> Stay(st, cnt)
         [] arg = "bad"     -> {R(Fails, "new", 0), R(Fails, "hfailed", 0),
                                R(Ans("err", <<"M">>, FALSE), "hfailed", 0)}

(* Index of ix.n features with node size ix.ns.                            *)
IndexResp(d, st, cnt, ix) ==
  IF st = "hdr" /\ d.ns > 0 /\ ix.n = d.n /\ ix.ns = d.ns
  THEN {R(Ans("ok", <<"I">>, FALSE), "idx", 0)}
  ELSE Stay(st, cnt)

(* IndexData(fs): index and features in one call.                          *)
IndexDataResp(d, st, cnt, fs) ==
  IF st = "hdr" /\ d.ns > 0 /\ Len(fs) > 0 /\ Len(fs) = d.n
     /\ \A i \in 1..Len(fs) : fs[i] # BadFeature
  THEN {R(Ans("ok", <<"I">> \o fs, FALSE), "eof", Len(fs))}
  ELSE Stay(st, cnt)

DataResp(d, st, cnt, x) ==
  IF (st \in {"idx", "data"} \/ (st = "hdr" /\ d.ns = 0)) /\ x # BadFeature
  THEN {R(Ans("ok", <<x>>, FALSE), After(d, cnt + 1), cnt + 1)}
  ELSE Stay(st, cnt)

(* Close reports a shortfall; cerr or a shortfall is an error.  After a    *)
(* failure with nothing known to be missing both answers are fine (hfailed *)
(* means that the header was not completely written, so that it is open    *)
(* whether it declares anything).                                          *)
CloseResp(d, st, cnt) ==
  LET short == st \notin {"new", "hfailed"} /\ cnt < d.n
      cl(c) == R(Ans(c, <<>>, FALSE), "closed", cnt)
  IN IF d.cerr THEN {cl("err")}
     ELSE IF st \in {"failed", "hfailed"} THEN {cl("err")} \cup (IF short THEN {} ELSE {cl("ok")})
     ELSE {cl(IF short THEN "err" ELSE "ok")}

Resp(d, st, cnt, call) ==
  CASE st = "closed" -> {R(Ans("closed", <<>>, FALSE), st, cnt)} 
    [] st \in {"failed", "hfailed"} /\ call.op # "Close" -> Stay(st, cnt)
    [] OTHER ->
       CASE call.op = "Header"    -> HeaderResp(d, st, cnt, call.arg)
         [] call.op = "Index"     -> IndexResp(d, st, cnt, call.ix)
         [] call.op = "IndexData" -> IndexDataResp(d, st, cnt, call.fs)
         [] call.op = "Data"      -> DataResp(d, st, cnt, call.x)
         [] call.op = "Close"     -> CloseResp(d, st, cnt)

(* The output stream fails during the call: the error is reported; a       *)
(* prefix of the units has been emitted, with part of the next unit or     *)
(* not.  If nothing was emitted beyond whole sections, the writer may   *)
(* stay usable at that point; otherwise it is failed for good.             *)
FaultResp(d, st, cnt, call) ==
  IF st \in {"closed", "failed", "hfailed"} \/ call.op = "Close" THEN {}
  ELSE UNION {
    LET u == r.o.out
    IN UNION { LET out == SubSeq(u, 1, k)
                   fc  == cnt + Cardinality({i \in 1..k : u[i] \notin {"M", "H", "I"}})
                   bad == IF call.op = "Header" THEN "hfailed" ELSE "failed"
                   cut == {R(Ans("err", out, p), bad, fc) : p \in IF k < Len(u) THEN BOOLEAN ELSE {FALSE}}
                   ok  == IF (call.op = "Header" /\ k > 0) \/ k = Len(u) THEN {}
                          ELSE {R(Ans("err", out, FALSE),
                                  IF k = 0 THEN st
                                  ELSE IF fc = cnt /\ call.op = "IndexData" THEN "idx"
                                  ELSE After(d, fc), fc)}
               IN cut \cup ok : k \in 0..Len(u) }
    : r \in {x \in Resp(d, st, cnt, call) : x.o.c = "ok" \/ x.o.out # <<>>} }
=============================================================================
