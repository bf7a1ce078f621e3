-------------------------------- MODULE Ply ---------------------------------
(* The PLY readers (C32).  Header: lines of words as in Readers.  Body: lines  *)
(* of words (ascii) or a sequence of typed fields <<type, value>> (binary),    *)
(* of which the first len bytes are there.  Coordinates in 1/1000.             *)
(* HeadStep interprets one header line, PlyRun the whole file - for the mesh   *)
(* reader (faces = TRUE) and for the points reader.                            *)
EXTENDS BinReaders
Sizes == [char |-> 1, int8 |-> 1, uchar |-> 1, uint8 |-> 1, short |-> 2, int16 |-> 2, ushort |-> 2, uint16 |-> 2,
          int |-> 4, int32 |-> 4, uint |-> 4, uint32 |-> 4, float |-> 4, float32 |-> 4, double |-> 8, float64 |-> 8]
FloatTypes == {"float", "float32", "double", "float64"}
IntTypes == DOMAIN Sizes \ FloatTypes
Coord == {"x", "y", "z"}
Idx == {"vertex_index", "vertex_indices"}
H0 == [ph |-> "magic", enc |-> "", cur |-> "meta", nv |-> 0 - 1, nf |-> 0 - 1, vp |-> <<>>, fp |-> <<>>]
T(line, i) == W(line, i)[3]
Word(line, i) == W(line, i)[1] = "s"
CoordProps(vp) == {i \in 1..Len(vp) : vp[i].name \in Coord}
Lists(fp) == {i \in 1..Len(fp) : fp[i].list /\ fp[i].name \in Idx}
Others(fp) == {i \in 1..Len(fp) : fp[i].list /\ fp[i].name \notin Idx}
Bad(h) == [h EXCEPT !.ph = "err"]
VertexProp(h, line) ==
  LET t == T(line, 2)  name == T(line, 3) IN
  IF ~(Word(line, 2) /\ Word(line, 3) /\ t \in DOMAIN Sizes) THEN Bad(h)
  ELSE IF name \in Coord /\ (Cardinality(CoordProps(h.vp)) >= 3 \/ t \notin FloatTypes) THEN Bad(h)
  ELSE [h EXCEPT !.vp = Append(@, [t |-> t, name |-> name])]
FaceProp(h, line) ==
  IF T(line, 2) = "list"
  THEN LET ct == T(line, 3)  it == T(line, 4)  name == T(line, 5) IN
       IF name \in Idx /\ h.fp # <<>> /\ (\E i \in 1..Len(h.fp) : h.fp[i].list /\ h.fp[i].name \in Idx) THEN [h EXCEPT !.fp = Append(@, [list |-> TRUE, t |-> it, ct |-> ct, name |-> name])]
       ELSE IF name \in Idx /\ (ct \notin IntTypes \/ it \notin IntTypes) THEN Bad(h)
       ELSE [h EXCEPT !.fp = Append(@, [list |-> TRUE, t |-> it, ct |-> ct, name |-> name])]
  ELSE IF Word(line, 2) /\ T(line, 2) \in DOMAIN Sizes
       THEN [h EXCEPT !.fp = Append(@, [list |-> FALSE, t |-> T(line, 2), ct |-> "", name |-> T(line, 3)])] ELSE Bad(h)
HeadStep(h, line) ==
  LET w == T(line, 1) IN
  CASE w \in {"comment", "obj_info"} -> h
    [] h.ph = "magic" -> IF line = << <<"s", 0, "ply">> >> THEN [h EXCEPT !.ph = "format"] ELSE Bad(h)
    [] h.ph = "format" ->
         IF w = "format" /\ Len(line) = 3 /\ T(line, 2) \in {"ascii", "binary_little_endian", "binary_big_endian"} /\ line[3] = <<"d", 1000, "1.0">>
         THEN [h EXCEPT !.ph = "elems", !.enc = T(line, 2)] ELSE Bad(h)
    [] w = "element" /\ T(line, 2) = "vertex" -> IF h.nv = 0 - 1 /\ IsU(W(line, 3)) THEN [h EXCEPT !.nv = line[3][2], !.cur = "vertex"] ELSE Bad(h)
    [] w = "element" /\ T(line, 2) = "face" ->
         IF h.nf = 0 - 1 /\ h.nv # 0 - 1 /\ IsU(W(line, 3)) THEN [h EXCEPT !.nf = line[3][2], !.cur = "face"] ELSE Bad(h)
    [] w = "property" -> IF h.cur = "vertex" THEN VertexProp(h, line) ELSE IF h.cur = "face" THEN FaceProp(h, line) ELSE Bad(h)
    [] w = "end_header" ->
         IF h.nv # 0 - 1 /\ \A c \in Coord : Cardinality({i \in 1..Len(h.vp) : h.vp[i].name = c}) = 1 THEN [h EXCEPT !.ph = "body"] ELSE Bad(h)
    [] OTHER -> Bad(h)
HeadFold(h, lines, k) == LET RECURSIVE F(_, _)
                             F(g, i) == IF g.ph \in {"err", "body"} THEN [h |-> g, line |-> i - 1]
                                        ELSE IF i > k THEN [h |-> Bad(g), line |-> 0] ELSE F(HeadStep(g, lines[i]), i + 1)
                         IN F(h, 1)
\* the faces can be read: one list of indices, no other list in the way
HasMesh(h) == /\ h.nf # 0 - 1 /\ Cardinality(Lists(h.fp)) = 1
              /\ \A i \in Others(h.fp) : h.enc = "ascii" /\ \A j \in Lists(h.fp) : j < i
At(vp, c) == CHOOSE i \in 1..Len(vp) : vp[i].name = c
ListAt(fp) == CHOOSE i \in Lists(fp) : TRUE
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* ---------------------------------------------------------------- body
AsciiVertex(h, line) ==
  IF \A c \in Coord : IsF(W(line, At(h.vp, c)))
  THEN <<"p", Val(line[At(h.vp, "x")]), Val(line[At(h.vp, "y")]), Val(line[At(h.vp, "z")])>> ELSE NoF
AsciiFace(h, line) ==
  LET b == ListAt(h.fp) IN
  IF W(line, b) = <<"i", 3, "">> /\ \A j \in b + 1..b + 3 : IsU(W(line, j)) THEN <<"f", line[b + 1][2], line[b + 2][2], line[b + 3][2]>> ELSE NoF
RECURSIVE AsciiFold(_, _, _, _, _, _)
AsciiFold(h, body, avail, faces, i, items) ==
  LET n == h.nv + (IF faces THEN h.nf ELSE 0) IN
  IF i > n THEN [items |-> items, fin |-> "end", line |-> 0]
  ELSE IF i > avail THEN [items |-> items, fin |-> "err", line |-> 0]
  ELSE LET x == IF i <= h.nv THEN AsciiVertex(h, body[i]) ELSE AsciiFace(h, body[i]) IN
       IF x = NoF THEN [items |-> items, fin |-> "err", line |-> i] ELSE AsciiFold(h, body, avail, faces, i + 1, Append(items, x))
FieldSizes(body) == [i \in 1..Len(body) |-> <<Sizes[body[i][1]]>>]
\* o: fields consumed so far
BinVertex(h, body, avail, o) ==
  IF o + Len(h.vp) > avail THEN NoF ELSE <<"p", body[o + At(h.vp, "x")][2], body[o + At(h.vp, "y")][2], body[o + At(h.vp, "z")][2]>>
BinFace(h, body, avail, o) ==
  LET b == o + ListAt(h.fp) IN
  IF b > avail \/ body[b][2] # 3 \/ o + Len(h.fp) + 3 > avail \/ \E j \in 1..3 : body[b + j][2] < 0 THEN NoF
  ELSE <<"f", body[b + 1][2], body[b + 2][2], body[b + 3][2]>>
RECURSIVE BinFold(_, _, _, _, _, _, _)
BinFold(h, body, avail, faces, i, o, items) ==
  LET n == h.nv + (IF faces THEN h.nf ELSE 0)
      v == i <= h.nv IN
  IF i > n THEN [items |-> items, fin |-> "end", line |-> 0]
  ELSE LET x == IF v THEN BinVertex(h, body, avail, o) ELSE BinFace(h, body, avail, o) IN
       IF x = NoF THEN [items |-> items, fin |-> "err", line |-> 0]
       ELSE BinFold(h, body, avail, faces, i + 1, o + (IF v THEN Len(h.vp) ELSE Len(h.fp) + 3), Append(items, x))
\* k: header lines that are there; avail: body lines or bytes that are there
PlyRun(head, k, body, avail, faces) ==
  LET r == HeadFold(H0, head, k)
      h == r.h IN
  IF h.ph = "err" THEN [items |-> <<>>, fin |-> "err", line |-> r.line, mesh |-> FALSE]
  ELSE IF faces /\ ~HasMesh(h) THEN [items |-> <<>>, fin |-> "err", line |-> 0, mesh |-> FALSE]
  ELSE LET s == IF h.enc = "ascii" THEN AsciiFold(h, body, avail, faces, 1, <<>>)
                ELSE BinFold(h, body, Avail(FieldSizes(body), avail), faces, 1, 0, <<>>) IN
       [items |-> <<IF faces THEN <<"r", h.nv, h.nf>> ELSE <<"r", h.nv>> >> \o s.items, fin |-> s.fin,
        line |-> IF s.line > 0 THEN Len(head) + s.line ELSE 0, mesh |-> HasMesh(h)]
HeadOf(head) == HeadFold(H0, head, Len(head)).h
=============================================================================
