---------------------------- MODULE FileWriterMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of FileWriter and export of its transitions.     *)
(***************************************************************************)
EXTENDS FileWriter, TLC, Json

CONSTANTS MaxN, Emit

VARIABLES d, st, cnt, call, o, flt,  \* as in FileReaderMC
          out, part                  \* everything emitted so far
vars == <<d, st, cnt, call, o, flt, out, part>>

Shapes == {x \in [n : 0..MaxN, ns : {0, 2, 5}, cerr : BOOLEAN] : x.cerr => x.n = 1}

Features == {"A", "B"}
Lists == {<<>>, <<"A">>, <<"B", "A">>, <<"A", "A">>, <<"A", "B", "A">>, <<BadFeature>>, <<"A", BadFeature>>, <<BadFeature, "B">>}
Calls(sh) ==
  {[op |-> "Header", arg |-> a] : a \in {"good", "refused", "bad"}}
  \cup {[op |-> "Index", ix |-> [n |-> m, ns |-> s]] : m \in 1..(MaxN + 1), s \in {2, 5}}
  \cup {[op |-> "IndexData", fs |-> l] : l \in Lists}
  \cup {[op |-> "Data", x |-> x] : x \in Features \cup {BadFeature}}
  \cup {[op |-> "Close"]}

Init == /\ d \in Shapes /\ st = "new" /\ cnt = 0 /\ call = [op |-> "-"]
        /\ o = Ans("ok", <<>>, FALSE) /\ flt = FALSE /\ out = <<>> /\ part = FALSE

Do(c, r, ft) == /\ call' = c /\ o' = r.o /\ st' = r.st /\ cnt' = r.cnt /\ flt' = ft
                /\ out' = out \o r.o.out /\ part' = (part \/ r.o.part) /\ d' = d

Next == \E c \in Calls(d) :
          \/ \E r \in Resp(d, st, cnt, c) : Do(c, r, FALSE)
          \/ \E r \in FaultResp(d, st, cnt, c) : Do(c, r, TRUE)

\* Unknown counts allow any number of features.
Bound == cnt <= MaxN + 4
Spec == Init /\ [][Next]_vars

Export == ~Emit \/ PrintT("EDGE " \o ToJson([d |-> d, st |-> st, cnt |-> cnt, call |-> call', flt |-> flt',
                                             o |-> o', st2 |-> st', cnt2 |-> cnt']))
AutoView == <<d, st, cnt>>

-----------------------------------------------------------------------------
Feats(s) == SelectSeq(s, LAMBDA u : u \notin {"M", "H", "I"})
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

TypeOK == st \in Positions /\ cnt <= MaxN + 5
\* P08: what was emitted is a prefix of magic, header, index iff declared,
\* then at most the declared number of features.
FormOK ==
  LET form == <<"M", "H">> \o (IF d.ns > 0 THEN <<"I">> ELSE <<>>) \o Feats(out)
  IN /\ IsPrefix(out, form)
     /\ (d.n > 0 => Len(Feats(out)) <= d.n)
     /\ Len(Feats(out)) = cnt \/ st = "closed"
     /\ (part => st \in {"failed", "hfailed", "closed"})
\* P08: nothing is emitted by a failing call on a working stream (but the
\* magic number before a malformed header).
RefusedEmitsNothing == (o.c # "ok" /\ ~flt /\ call.op # "-") => (o.out = <<>> \/ (call.op = "Header" /\ call.arg = "bad" /\ o.out = <<"M">>))
\* P08: success of Close means everything declared is there.
CloseMeansCompleteAct ==
  (call'.op = "Close" /\ o'.c = "ok" /\ ~part /\ st # "hfailed" /\ Len(out) >= 2)
     => (d.n > 0 => Len(Feats(out)) = d.n)
CloseMeansComplete == [][CloseMeansCompleteAct]_vars
CloseReportsAct ==
  (call'.op = "Close" /\ o'.c = "err" /\ ~d.cerr /\ st \notin {"failed", "hfailed"})
     => Len(out) < 2 + (IF d.ns > 0 THEN 1 ELSE 0) + d.n
CloseReports == [][CloseReportsAct]_vars
NoSuccessWhenFaulty == flt => o.c = "err"
\* P08: refused calls leave the writer as it was.
RefusedHarmlessAct == (o'.c = "err" /\ ~flt' /\ call'.op # "Close" /\ ~(call'.op = "Header" /\ call'.arg = "bad")) => (st' = st /\ cnt' = cnt)
RefusedHarmless == [][RefusedHarmlessAct]_vars
\* P09: after a partial write nothing more is ever emitted.
NothingAfterPartAct == part => (out' = out /\ o'.c # "ok") \/ call'.op = "Close"
NothingAfterPart == [][NothingAfterPartAct]_vars
ClosedFinalAct == st = "closed" => (st' = "closed" /\ o'.c = "closed" /\ out' = out)
ClosedFinal == [][ClosedFinalAct]_vars
=============================================================================
