----------------------------- MODULE HeaderText -----------------------------
(***************************************************************************)
(* What the text for a header shows.                                       *)
(*                                                                         *)
(* A header is [name, title, desc, meta, env, type, dims, cols, count,     *)
(* node, crs].  Texts are numbers, 0 when there is none; env is a sequence *)
(* of numbers; dims is the set of the kinds of coordinates it has besides  *)
(* X and Y; cols is the number of columns; count is four digits to base    *)
(* 65536, the highest first; crs is a sequence of none or one              *)
(* [org, code, name, wkt, str].                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Dims == {"Z", "M", "T", "TM"}
NoCount == <<0, 0, 0, 0>>

\* A length of -1 for wkt: there is none.  count <<>> is shown as not known and
\* node -1 as no index.
Shown(h) ==
  [name |-> h.name, title |-> h.title, desc |-> h.desc, meta |-> h.meta,
   env |-> h.env, type |-> h.type, dims |-> h.dims, cols |-> h.cols,
   count |-> IF h.count = NoCount THEN <<>> ELSE h.count,
   node |-> IF h.node = 0 THEN -1 ELSE h.node,
   crs |-> h.crs]
=============================================================================
