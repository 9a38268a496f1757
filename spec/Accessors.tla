----------------------------- MODULE Accessors -----------------------------
(***************************************************************************)
(* The tables of the FlatGeobuf schema (header.fbs and feature.fbs,        *)
(* version 3): the fields of each table in the order of their positions,   *)
(* with their kind and default.                                            *)
(*                                                                         *)
(* A value of a field is a number: 0 is the default (absent for texts,     *)
(* tables and vectors), 1..3 are distinct other values, and Forced is the  *)
(* default stored explicitly.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(n, k, d) == [n |-> n, k |-> k, d |-> d]

Header == <<
  F("Name", "str", 0), F("Envelope", "vf64", 0), F("GeometryType", "geomtype", 0),
  F("HasZ", "bool", 0), F("HasM", "bool", 0), F("HasT", "bool", 0), F("HasTm", "bool", 0),
  F("Columns", "vColumn", 0), F("FeaturesCount", "u64", 0), F("IndexNodeSize", "u16", 16),
  F("Crs", "Crs", 0), F("Title", "str", 0), F("Description", "str", 0), F("Metadata", "str", 0) >>
Column == <<
  F("Name", "str", 0), F("Type", "coltype", 0), F("Title", "str", 0), F("Description", "str", 0),
  F("Width", "i32", -1), F("Precision", "i32", -1), F("Scale", "i32", -1),
  F("Nullable", "bool", 1), F("Unique", "bool", 0), F("PrimaryKey", "bool", 0), F("Metadata", "str", 0) >>
Crs == <<
  F("Org", "str", 0), F("Code", "i32", 0), F("Name", "str", 0),
  F("Description", "str", 0), F("Wkt", "str", 0), F("CodeString", "str", 0) >>
Geometry == <<
  F("Ends", "vu32", 0), F("Xy", "vf64", 0), F("Z", "vf64", 0), F("M", "vf64", 0),
  F("T", "vf64", 0), F("Tm", "vu64", 0), F("Type", "geomtype", 0), F("Parts", "vGeometry", 0) >>
Feature == << F("Geometry", "Geometry", 0), F("Properties", "vu8", 0), F("Columns", "vColumn", 0) >>

Tables == {"Header", "Column", "Crs", "Geometry", "Feature"}
Fields(t) == CASE t = "Header" -> Header [] t = "Column" -> Column [] t = "Crs" -> Crs
               [] t = "Geometry" -> Geometry [] t = "Feature" -> Feature

Scalars == {"bool", "i32", "u16", "u64", "geomtype", "coltype"}
IsScalar(f) == f.k \in Scalars
Forced == 9
\* Values a field can be given when the table is built.
Values(f) == IF f.k = "bool" THEN {1, Forced} ELSE IF IsScalar(f) THEN {1, 2, 3, Forced} ELSE {1, 2, 3}

GeometryTypes == <<"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon",
  "GeometryCollection", "CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve",
  "Surface", "PolyhedralSurface", "TIN", "Triangle">>
ColumnTypes == <<"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double",
  "String", "Json", "DateTime", "Binary">>

\* A stored table: None, or a value per field.
None == -1
Get(st, i) == IF st[i] \in {None, Forced} THEN 0 ELSE st[i]
CanMutate(st, t, i) == IsScalar(Fields(t)[i]) /\ st[i] # None
Mutate(st, i, v) == IF st[i] = None THEN st ELSE [st EXCEPT ![i] = IF v = 0 THEN Forced ELSE v]
=============================================================================
