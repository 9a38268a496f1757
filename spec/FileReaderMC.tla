---------------------------- MODULE FileReaderMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of FileReader for small files, with the reader   *)
(* properties as invariants, and export of the transition relation as an   *)
(* oracle automaton (one line "EDGE ..." per transition).                  *)
(***************************************************************************)
EXTENDS FileReader, TLC, Json

CONSTANTS MaxN,      \* largest number of features
          MaxK,      \* largest buffer size for Data
          Cuts,      \* TRUE: also truncated files and failing streams
          Emit       \* TRUE: print the automaton

VARIABLES f, st, nx,   \* file, position
          call, o,     \* last call and its answer (history)
          dlv, srch,   \* features delivered since the header/last rewind;
                       \* whether a search happened since then
          flt          \* the last call met a stream failure
vars == <<f, st, nx, call, o, dlv, srch, flt>>

Queries == {"none", "first", "last", "ends", "mid", "all"}
HitSeq(n, q) ==
  CASE q = "none"  -> <<>>
    [] q = "first" -> IF n > 0 THEN <<1>> ELSE <<>>
    [] q = "last"  -> IF n > 0 THEN <<n>> ELSE <<>>
    [] q = "ends"  -> IF n > 1 THEN <<1, n>> ELSE Run(0, n)
    [] q = "mid"   -> IF n > 1 THEN <<2>> ELSE <<>>
    [] q = "all"   -> Run(0, n)

FileOf(n, kd, ix, sk, cut, m, cl, ce) ==
  [n |-> n, known |-> kd, idx |-> ix, seek |-> sk, cut |-> cut, m |-> m,
   clean |-> cl, cerr |-> ce]

Files ==
  {x \in {FileOf(n, kd, ix, sk, cut, m, cl, ce) :
            n \in 0..MaxN, kd \in BOOLEAN, ix \in BOOLEAN, sk \in BOOLEAN,
            cut \in {"hdr", "idx", "data"}, m \in 0..MaxN, cl \in BOOLEAN,
            ce \in BOOLEAN} :
     /\ x.known => x.n > 0
     /\ x.idx => x.known
     /\ x.cut = "idx" => x.idx
     /\ x.cut # "data" => x.m = 0 /\ x.clean
     /\ x.m <= x.n
     /\ x.m = x.n => x.clean
     /\ (x.cut = "data" /\ ~x.known) => (x.clean => x.m = x.n)   \* a cut between features is a shorter file
     /\ x.cerr => (x.seek /\ x.idx /\ Whole(x))
     /\ Cuts \/ Whole(x)}

Calls == {[op |-> p] : p \in {"Header", "Index", "DataRem", "Rewind", "Close"}}
         \cup {[op |-> "Data", k |-> k] : k \in 0..MaxK}
         \cup {[op |-> "Search", q |-> q, h |-> HitSeq(f.n, q)] : q \in Queries}

NoCall == [op |-> "-"]
Init ==
  /\ f \in Files
  /\ st = "new" /\ nx = 0 /\ call = NoCall /\ o = Ans("ok", <<>>, "-")
  /\ dlv = <<>> /\ srch = FALSE /\ flt = FALSE

Do(c, r, ft) ==
  /\ call' = c /\ o' = r.o /\ st' = r.st /\ nx' = r.nx /\ flt' = ft
  /\ f' = f
  /\ dlv' = IF c.op = "Rewind" /\ r.o.c = "ok" THEN <<>>
            ELSE IF c.op \in {"Data", "DataRem"} THEN dlv \o r.o.fs ELSE dlv
  /\ srch' = IF c.op = "Rewind" /\ r.o.c = "ok" THEN FALSE
             ELSE srch \/ (c.op = "Search" /\ r.o.c = "ok")

Step(c)  == \E r \in Resp(f, st, nx, c) : Do(c, r, FALSE)
Fault(c) == Cuts /\ \E r \in FaultResp(f, st, nx, c) : Do(c, r, TRUE)

Next == \E c \in Calls : Step(c) \/ Fault(c)
Spec == Init /\ [][Next]_vars

\* Print every transition of the automaton, without the history variables.
Export ==
  ~Emit \/ PrintT("EDGE " \o ToJson([f |-> f, st |-> st, nx |-> nx, call |-> call',
                                     flt |-> flt', o |-> o', st2 |-> st', nx2 |-> nx']))
\* For export, states that differ only in history are the same.
AutoView == <<f, st, nx>>

-----------------------------------------------------------------------------
(* Properties                                                              *)
TypeOK == st \in Positions /\ nx \in 0..f.n /\ o.c \in {"ok", "eof", "err", "noindex", "closed"}

\* P07/P10: features come once each, in order, none skipped.
DeliveredInOrder == dlv = Run(0, Len(dlv)) /\ Len(dlv) <= f.m
                    /\ (st = "data" => nx = Len(dlv))
\* P10: a clean end of data is only reported if everything was delivered.
EndMeansAll ==
  (call.op \in {"Data", "DataRem"} /\ ~srch
   /\ (o.c = "eof" \/ (o.c = "ok" /\ call.op = "DataRem")))
  => Len(dlv) = f.n
\* P10: a successful search is the answer for the whole file.
SearchExact == (call.op = "Search" /\ o.c = "ok") => o.fs = HitSeq(f.n, call.q)
\* P07: data can only be obtained after the header; errors deliver nothing
\* unless the input is cut or failing.
NoHeaderNoData == st = "new" => dlv = <<>>
ErrorsDeliverNothing == (o.c = "err" /\ Whole(f) /\ ~flt) => o.fs = <<>>
\* P07: an empty buffer never ends the data.
EmptyReadHarmlessAct ==
  (call'.op = "Data" /\ call'.k = 0 /\ Whole(f) /\ flt' = FALSE /\ st \in {"hdr", "idx", "data"})
      => st' = "data" /\ nx' = nx
EmptyReadHarmless == [][EmptyReadHarmlessAct]_vars
\* P07: misuse changes nothing.
MisuseHarmlessAct ==
  (o'.c = "err" /\ Whole(f) /\ ~flt' /\ call'.op # "Close") => (st' = st /\ nx' = nx)
MisuseHarmless == [][MisuseHarmlessAct]_vars
\* P07: rewinding seekable input always works once the header was read.
RewindWorksAct ==
  (call'.op = "Rewind" /\ ~flt' /\ f.seek /\ st \in {"hdr", "idx", "data", "eof"})
      => (o'.c = "ok" /\ st' = "hdr" /\ nx' = 0)
RewindWorks == [][RewindWorksAct]_vars
\* P07: closed is final; P10: so is a failed stream, until closed.
ClosedFinalAct ==
  st = "closed" => (st' = "closed" /\ o'.c = "closed")
ClosedFinal == [][ClosedFinalAct]_vars
FailureStickyAct ==
  st \in {"failed", "iofail"} => ((st' = st /\ o'.c = "err" /\ o'.fs = <<>>) \/ st' = "closed")
FailureSticky == [][FailureStickyAct]_vars
\* A fault is never answered with success.
FaultReported == flt => o.c = "err"
\* A well-formed file read from a working stream never errors in protocol order.
GoodFileGoodAnswersAct ==
  (Whole(f) /\ ~flt' /\ st \in {"hdr", "idx", "data"} /\ call'.op \in {"Data", "DataRem"})
      => o'.c \in {"ok", "eof"}
GoodFileGoodAnswers == [][GoodFileGoodAnswersAct]_vars
=============================================================================
