----------------------------- MODULE SummaryMC -----------------------------
(***************************************************************************)
(* Features with nested geometries, with and without columns of their own, *)
(* whole and with damaged properties.                                      *)
(***************************************************************************)
EXTENDS Summary, FiniteSets, TLC, Json

CONSTANT Deep

Pts == {<<>>, <<0, 0>>, <<2, -1, -3, 1>>, <<1, 1, 5, 5, -4, 0>>}
G0 == {[type |-> k, xy |-> p, parts |-> <<>>] : k \in {0, 1, 3, 17}, p \in Pts}
P0 == {[type |-> 1, xy |-> p, parts |-> <<>>] : p \in Pts}
G1 == {[type |-> 6, xy |-> p, parts |-> q] : p \in {<<>>, <<0, 0>>}, q \in UNION {[1..n -> P0] : n \in 1..2}}
P1 == {[type |-> 4, xy |-> <<>>, parts |-> <<q>>] : q \in P0} \cup {[type |-> 2, xy |-> <<9, -9>>, parts |-> <<>>]}
G2 == {[type |-> 7, xy |-> p, parts |-> q] : p \in {<<>>, <<1, 7>>}, q \in UNION {[1..n -> P1] : n \in 1..Deep}}
Geoms == {<<>>} \cup {<<g>> : g \in G0 \cup G1 \cup G2}

C(n, ty) == [name |-> n, type |-> ty]
ColSets == {<<>>, <<C(1, TInt), C(2, TString)>>, <<C(3, TInt), C(4, TString)>>, <<C(5, TUByte)>>, <<C(6, TDouble), C(1, TBool), C(7, TBinary)>>, <<C(8, 99)>>}
Vals(ty) == IF ty = TString THEN {<<104, 105>>, <<>>} ELSE IF ty = TBinary THEN {<<1, 255>>} ELSE IF ty = TBool THEN {<<1>>}
            ELSE IF ty = TDouble THEN {<<0, 0, 0, 16376>>} ELSE IF ty = TUByte THEN {<<200>>} ELSE {<<17, 0>>, <<300, 0>>}
Lists(cs) == LET ok == {i \in 1..Len(cs) : cs[i].type \in Types}
                 prs == UNION {{[c |-> i - 1, v |-> v] : v \in Vals(cs[i].type)} : i \in ok}
             IN UNION {[1..k -> prs] : k \in 0..2}
Sections == UNION {{EncodeSection(TypesOf(cs), l) : l \in Lists(cs)} : cs \in ColSets}
Damaged == UNION {{SubSeq(s, 1, k) : k \in 0..Len(s)} : s \in Sections} \cup {Append(s, 0) : s \in Sections}

VARIABLE f
Init == \/ f \in {[geoms |-> g, own |-> <<C(1, TUByte)>>, given |-> <<>>, b |-> <<0, 0, 5>>] : g \in Geoms}
        \/ f \in {[geoms |-> <<>>, own |-> o, given |-> s, b |-> b] : o \in ColSets, s \in ColSets, b \in Damaged}
Spec == Init /\ [][FALSE]_f

\* The bounds hold every coordinate, and no smaller box does.
RECURSIVE Points(_)
Points(g) == {<<g.xy[2 * i - 1], g.xy[2 * i]>> : i \in 1..(Len(g.xy) \div 2)}
             \cup UNION {Points(g.parts[i]) : i \in 1..Len(g.parts)}
Tight == f.geoms # <<>> =>
  LET s == Shown(f).bounds
      p == Points(f.geoms[1])
  IN IF p = {} THEN s = EmptyBox
     ELSE /\ \A x \in p : x[1] >= s[1] /\ x[2] >= s[2] /\ x[1] <= s[3] /\ x[2] <= s[4]
          /\ \A k \in {1, 3} : \E x \in p : x[1] = s[k]
          /\ \A k \in {2, 4} : \E x \in p : x[2] = s[k]
Export == PrintT("ROW " \o ToJson([f |-> f, s |-> Shown(f)]))
=============================================================================
