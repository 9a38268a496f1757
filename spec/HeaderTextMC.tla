---------------------------- MODULE HeaderTextMC ----------------------------
(***************************************************************************)
(* Headers: each of four of them with every choice for one or two of its   *)
(* parts.  Fields of different headers are told apart by their texts.      *)
(***************************************************************************)
EXTENDS HeaderText, TLC, Json

Crs(o, c, n, w, s) == [org |-> o, code |-> c, name |-> n, wkt |-> w, str |-> s]
Base == {
  [name |-> 0, title |-> 0, desc |-> 0, meta |-> 0, env |-> <<>>, type |-> 0, dims |-> {}, cols |-> 0, count |-> NoCount, node |-> 0, crs |-> <<>>],
  [name |-> 1, title |-> 2, desc |-> 3, meta |-> 4, env |-> <<-3, -2, 5, 7>>, type |-> 6, dims |-> Dims, cols |-> 2, count |-> <<0, 0, 0, 179>>, node |-> 16, crs |-> <<Crs(1, 4326, 2, 354, 3)>>],
  [name |-> 2, title |-> 0, desc |-> 1, meta |-> 0, env |-> <<1, 2, 3, 4, 5, 6>>, type |-> 17, dims |-> {"Z"}, cols |-> 1, count |-> <<32768, 0, 0, 1>>, node |-> 0, crs |-> <<Crs(0, 0, 0, -1, 0)>>],
  [name |-> 0, title |-> 1, desc |-> 0, meta |-> 2, env |-> <<9>>, type |-> 1, dims |-> {"M", "TM"}, cols |-> 0, count |-> NoCount, node |-> 65535, crs |-> <<Crs(0, -1, 1, 0, 0)>>]}
Crss == {<<>>} \cup {<<Crs(o, c, n, w, s)>> : o \in 0..1, c \in {-5, 0, 3857}, n \in {0, 2}, w \in {-1, 1, 20}, s \in {0, 3}}
Texts(h) == {[h EXCEPT !.name = a, !.title = b, !.desc = c, !.meta = d] : a \in 0..1, b \in {0, 2}, c \in {0, 3}, d \in {0, 4}}
Sets(h) == {[h EXCEPT !.dims = d, !.type = k] : d \in SUBSET Dims, k \in 0..17}
Counts(h) == {[h EXCEPT !.count = n, !.node = k, !.cols = c] :
                n \in {<<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<65535, 65535, 65535, 65535>>, NoCount}, k \in {0, 2, 3, 16, 256, 65535}, c \in {0, 1, 3}}
Places(h) == {[h EXCEPT !.env = e, !.crs = c] : e \in {<<>>, <<0>>, <<-7, 8>>, <<10, -20, 30, -40>>, <<1, 2, 3, 4, 5, 6, 7, 8>>}, c \in Crss}

VARIABLE h
Init == \E b \in Base : h \in Texts(b) \cup Sets(b) \cup Counts(b) \cup Places(b)
Spec == Init /\ [][FALSE]_h
\* No two of these headers which differ in what is known of them have the same text.
Total == /\ (Shown(h).count = <<>>) = (h.count = NoCount)
         /\ (Shown(h).node = -1) = (h.node = 0)
Export == PrintT("ROW " \o ToJson([h |-> h, s |-> Shown(h)]))
=============================================================================
