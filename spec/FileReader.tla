----------------------------- MODULE FileReader -----------------------------
(***************************************************************************)
(* Abstract specification of flatgeobuf.FileReader.                        *)
(*                                                                         *)
(* The abstract state of a reader is its logical position in the file      *)
(* (st, nx); everything else the implementation remembers (saved offsets,  *)
(* cached index, lazy seeks) must not be observable.  Resp gives, for a    *)
(* file f, a position and a call, the set of allowed answers together with *)
(* the next position.  It is used three ways: explored exhaustively for    *)
(* small files (FileReaderMC), printed as an oracle automaton which the    *)
(* driver replays against the real reader (FileReaderMC, Export), and      *)
(* evaluated on traces recorded from the real reader (FileReaderTrace).    *)
(*                                                                         *)
(* A file f is a record:                                                   *)
(*   n      number of features of the whole file                           *)
(*   known  the header declares the feature count (then n > 0)             *)
(*   idx    the file has an index (then known)                             *)
(*   seek   the input stream is seekable                                   *)
(*   cerr   closing the underlying stream returns an error                 *)
(*   cut    which part of the file can be read: "hdr"  (the header is      *)
(*          incomplete), "idx" (the header but not the whole index), or    *)
(*          "data" (header and index, m complete features, and - unless    *)
(*          clean - some but not all bytes of feature m+1)                 *)
(*   m, clean                                                              *)
(* Features are numbered 1..n in file order.  A search call carries h, the *)
(* ascending sequence of the features matching its query.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* Positions.  "broken": the input ended too early; "failed": the reader is
\* in a sticky error; "iofail": likewise, caused by a failing stream.
Positions == {"new", "hdr", "idx", "data", "eof", "broken", "failed",
              "iofail", "closed"}

Whole(f) == f.cut = "data" /\ f.m = f.n /\ f.clean

\* Features a+1 .. b, in order.
Run(a, b) == IF b <= a THEN <<>> ELSE [i \in 1..(b - a) |-> a + i]

Min2(a, b) == IF a < b THEN a ELSE b

Prefixes(s) == {SubSeq(s, 1, k) : k \in 0..Len(s)}

Elems(s) == {s[i] : i \in 1..Len(s)}

\* An answer: class, features, index token ("tree": the file's index,
\* "nil": no index, "-": not applicable).
Ans(c, fs, t) == [c |-> c, fs |-> fs, t |-> t]
Fails == Ans("err", <<>>, "-")

R(o, st, nx) == [o |-> o, st |-> st, nx |-> nx]

-----------------------------------------------------------------------------
(* Header: opens the file.  Only from the initial position.                *)
HeaderResp(f, st, nx) ==
  IF st # "new" THEN {R(Fails, st, nx)}
  ELSE IF f.cut = "hdr" THEN {R(Fails, "failed", 0)}
  ELSE {R(Ans("ok", <<>>, "-"), "hdr", 0)}

(* Index: loads the index; only from just after the header.                *)
IndexResp(f, st, nx) ==
  IF st # "hdr" THEN {R(Fails, st, nx)}
  ELSE IF ~f.idx THEN {R(Ans("ok", <<>>, "nil"), "idx", 0)}
  ELSE IF f.cut = "idx" THEN {R(Fails, "broken", 0)}
  ELSE {R(Ans("ok", <<>>, "tree"), "idx", 0)}

(* IndexSearch: all matching features, in file order; then end of data.    *)
SearchResp(f, st, nx, h) ==
  IF st # "hdr" THEN {R(Fails, st, nx)}
  ELSE IF ~f.idx THEN {R(Ans("noindex", <<>>, "-"), "idx", 0)}
  ELSE LET full == R(Ans("ok", h, "-"), "eof", 0)
           have == SelectSeq(h, LAMBDA i : i <= f.m)
       IN IF f.cut = "data" /\ Elems(h) \subseteq 1..f.m THEN {full}
          ELSE {R(Ans("err", p, "-"), "broken", 0) :
                   p \in IF f.cut = "data" THEN Prefixes(have) ELSE {<<>>}}
               \cup (IF h = <<>> /\ f.seek THEN {full} ELSE {})

(* Data(k): at most k next features, with end-of-data when nothing is left. *)
DataResp(f, st, nx, k) ==
  CASE st = "new"    -> {R(Fails, st, nx)}
    [] st = "eof"    -> {R(Ans("eof", <<>>, "-"), st, nx)}
    [] st = "broken" -> {R(Fails, st, nx)} \cup
                        (IF k = 0 THEN {R(Ans("ok", <<>>, "-"), st, nx)} ELSE {})
    [] st \in {"hdr", "idx", "data"} ->
         IF f.cut = "idx"
         THEN {R(Fails, "broken", nx)} \cup
              (IF k = 0 THEN {R(Ans("ok", <<>>, "-"), "broken", nx)} ELSE {})
         ELSE LET have == f.m - nx
                  want == IF f.known THEN Min2(k, f.n - nx) ELSE k
              IN IF want <= have
                 THEN LET end == f.known /\ nx + want = f.n
                      IN {R(Ans(IF end THEN "eof" ELSE "ok", Run(nx, nx + want), "-"),
                            IF end THEN "eof" ELSE "data", nx + want)}
                 ELSE IF ~f.known /\ f.clean
                 THEN {R(Ans("eof", Run(nx, f.m), "-"), "eof", f.m)}
                 ELSE {R(Ans("err", Run(nx, f.m), "-"), "broken", f.m)}

(* DataRem: all remaining features.                                        *)
DataRemResp(f, st, nx) ==
  CASE st = "new"    -> {R(Fails, st, nx)}
    [] st = "eof"    -> {R(Ans("ok", <<>>, "-"), st, nx)}
    [] st = "broken" -> {R(Fails, st, nx)}
    [] st \in {"hdr", "idx", "data"} ->
         IF f.cut = "idx" THEN {R(Fails, "broken", nx)}
         ELSE IF f.clean /\ (f.known => f.m = f.n)
         THEN {R(Ans("ok", Run(nx, f.m), "-"), "eof", f.m)}
         ELSE {R(Ans("err", Run(nx, f.m), "-"), "broken", f.m)}

(* Rewind: back to just after the header, if the input is seekable.        *)
RewindResp(f, st, nx) ==
  LET back == R(Ans("ok", <<>>, "-"), "hdr", 0)
  IN CASE st = "hdr" -> {back}
       [] st \in {"idx", "data", "eof"} ->
            IF f.seek THEN {back} ELSE {R(Fails, st, nx)}
       [] st = "broken" ->
            (IF f.seek THEN {back} ELSE {}) \cup {R(Fails, st, nx)}
       [] OTHER -> {R(Fails, st, nx)}

CloseResp(f, st, nx) ==
  {R(Ans(IF f.cerr THEN "err" ELSE "ok", <<>>, "-"), "closed", 0)}

Resp(f, st, nx, call) ==
  CASE st = "closed" -> {R(Ans("closed", <<>>, "-"), st, nx)}
    [] st # "closed" /\ call.op = "Close" -> CloseResp(f, st, nx)
    [] st \in {"failed", "iofail"} /\ call.op # "Close" -> {R(Fails, st, nx)}
    [] OTHER ->
       CASE call.op = "Header"  -> HeaderResp(f, st, nx)
         [] call.op = "Index"   -> IndexResp(f, st, nx)
         [] call.op = "Search"  -> SearchResp(f, st, nx, call.h)
         [] call.op = "Data"    -> DataResp(f, st, nx, call.k)
         [] call.op = "DataRem" -> DataRemResp(f, st, nx)
         [] call.op = "Rewind"  -> RewindResp(f, st, nx)

(* The same call when the input stream fails during it: the answer is an   *)
(* error, features delivered with it are the right ones, and the error is  *)
(* sticky.                                                                 *)
FaultResp(f, st, nx, call) ==
  IF st \in {"closed", "failed", "iofail"} \/ call.op = "Close" THEN {}
  ELSE {R(Ans("err", p, "-"), "iofail", 0) :
          p \in UNION {Prefixes(r.o.fs) : r \in Resp(f, st, nx, call)}}
=============================================================================
