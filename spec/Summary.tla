------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* What the text for a feature shows.                                      *)
(*                                                                         *)
(* A feature is [geoms, own, given, b]: its geometry (a sequence of none   *)
(* or one), its own columns, the columns of the supplied schema, each      *)
(* column [name, type], and the bytes of its properties.  The text shows   *)
(* the geometry's type, its bounds at any depth, and the properties under  *)
(* the names of the columns, or it is the text of an error.                *)
(***************************************************************************)
EXTENDS Geometry, Props

Columns(f) == IF f.own # <<>> THEN f.own ELSE f.given
TypesOf(cols) == [i \in 1..Len(cols) |-> cols[i].type]

\* fail: the text must be an error.
Shown(f) ==
  LET cols == Columns(f)
      d == DecodeSection(TypesOf(cols), f.b)
  IN [fail |-> ~d.ok,
      type |-> IF f.geoms = <<>> THEN -1 ELSE f.geoms[1].type,
      bounds |-> IF f.geoms = <<>> THEN EmptyBox ELSE BoxOfGeom(f.geoms[1]),
      props |-> [i \in 1..Len(d.xs) |-> [name |-> cols[d.xs[i].c + 1].name, type |-> cols[d.xs[i].c + 1].type, v |-> d.xs[i].v]]]
=============================================================================
