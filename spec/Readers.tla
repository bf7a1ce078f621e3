------------------------------ MODULE Readers -------------------------------
(* The line-oriented file readers (C25-C27, C29-C31, C33, C36-C38) as state    *)
(* machines.  A file is a sequence of lines, a line a sequence of words        *)
(*   <<"i", n, "">>   an integer            <<"d", n, "">>  a decimal, n/1000  *)
(*   <<"s", 0, txt>>  any other text        <<"c", 0, "">>  a comment          *)
(*   <<"r", n, sfx>>  a vertex number followed by /.. (OBJ)                    *)
(*   <<"X", n, "">> (Y, Z)  an axis word (G-code), n/1000                      *)
(* A machine consumes a line, emits at most one item and may come to its end   *)
(* ("end") or fail ("err").  Items: <<"r", n ..>> announces counts,            *)
(* <<"p", ..>> is a point in 1/1000, <<"f", a, b, c>> a face, <<"t", ..>> a    *)
(* facet.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoF == <<>>
W(line, i) == IF i <= Len(line) THEN line[i] ELSE <<"", 0, "">>
IsF(w) == w[1] \in {"i", "d"}
Val(w) == IF w[1] = "i" THEN 1000 * w[2] ELSE w[2]
IsU(w) == w[1] = "i" /\ w[2] >= 0
Fs(line, a, b) == \A i \in a..b : IsF(W(line, i))
Vals(line, a, b) == [i \in 1..(b - a + 1) |-> Val(line[a + i - 1])]
Txt(w, s) == w[1] = "s" /\ w[3] = s
Go(rs) == [rs |-> rs, out |-> <<>>, fin |-> ""]
Emit(rs, item) == [rs |-> rs, out |-> <<item>>, fin |-> ""]
Fail(rs) == [rs |-> rs, out |-> <<>>, fin |-> "err"]
Stop(rs) == [rs |-> rs, out |-> <<>>, fin |-> "end"]
P(line, a) == <<"p">> \o Vals(line, a, a + 2)

Start(fmt) ==
  [ph |-> CASE fmt = "pts" -> "count" [] fmt = "ptx" -> "1" [] fmt = "gcode" -> "abs" [] fmt \in {"off", "offp"} -> "off"
            [] fmt = "stl" -> "solid" [] OTHER -> "", n |-> 0, m |-> 0, q |-> IF fmt = "gcode" THEN <<0, 0, 0>> ELSE <<>>]

\* ---------------------------------------------------------------- one line per point
XyStep(rs, line) == IF Fs(line, 1, 2) THEN Emit(rs, <<"p">> \o Vals(line, 1, 2)) ELSE Fail(rs)
XyzStep(rs, line) == IF Fs(line, 1, 3) THEN Emit(rs, P(line, 1)) ELSE Fail(rs)

\* ---------------------------------------------------------------- PTS: blocks of a count and points
PtsStep(rs, line) ==
  IF line = <<>> THEN Go(rs)
  ELSE IF rs.ph = "count" \/ rs.n = 0
       THEN IF IsU(line[1]) THEN Emit([rs EXCEPT !.ph = "pts", !.n = line[1][2]], <<"r", line[1][2]>>) ELSE Fail(rs)
       ELSE IF Fs(line, 1, 3) THEN Emit([rs EXCEPT !.n = @ - 1], P(line, 1)) ELSE Fail(rs)

\* ---------------------------------------------------------------- PTX: columns, rows, 4 scanner lines, 4 matrix lines, points
Dot(q, r, v) == (q[4 * r + 1] * v[1] + q[4 * r + 2] * v[2] + q[4 * r + 3] * v[3]) \div 1000 + q[4 * r + 4]
PtxStep(rs, line) ==
  CASE rs.ph = "1" -> IF Len(line) = 1 /\ IsU(line[1]) THEN Go([rs EXCEPT !.ph = "2", !.m = line[1][2]]) ELSE Fail(rs)
    [] rs.ph = "2" -> IF Len(line) = 1 /\ IsU(line[1]) THEN Go([rs EXCEPT !.ph = "3", !.n = line[1][2] * rs.m]) ELSE Fail(rs)
    [] rs.ph = "3" -> Go([rs EXCEPT !.ph = "4"])
    [] rs.ph = "4" -> Go([rs EXCEPT !.ph = "5"])
    [] rs.ph = "5" -> Go([rs EXCEPT !.ph = "6"])
    [] rs.ph = "6" -> Go([rs EXCEPT !.ph = "m", !.q = <<>>])
    [] rs.ph = "m" ->
         IF ~Fs(line, 1, 4) THEN Fail(rs)
         ELSE LET q == rs.q \o Vals(line, 1, 4) IN
              IF Len(q) < 16 THEN Go([rs EXCEPT !.q = q])
              ELSE Emit([rs EXCEPT !.q = q, !.ph = IF rs.n = 0 THEN "1" ELSE "p"], <<"r", rs.n>>)
    [] rs.ph = "p" ->
         IF ~Fs(line, 1, 3) THEN Fail(rs)
         ELSE LET v == Vals(line, 1, 3) IN
              Emit([rs EXCEPT !.n = @ - 1, !.ph = IF rs.n = 1 THEN "1" ELSE "p"],
                   <<"p", Dot(rs.q, 0, v), Dot(rs.q, 1, v), Dot(rs.q, 2, v)>>)

\* ---------------------------------------------------------------- G-code
Axes == <<"X", "Y", "Z">>
CommentAt(line) == LET C == {i \in 1..Len(line) : line[i][1] = "c"} IN
                   IF C = {} THEN Len(line) + 1 ELSE CHOOSE i \in C : \A j \in C : i <= j
BadAxis(line) == \E i \in 1..CommentAt(line) - 1 : line[i][1] = "s" /\ line[i][3] \in {"X?", "Y?", "Z?"}
AxisOf(line, a) == LET I == {i \in 2..CommentAt(line) - 1 : line[i][1] = Axes[a]} IN
                   IF I = {} THEN <<>> ELSE <<line[CHOOSE i \in I : \A j \in I : i >= j][2]>>
Moves(line) == \E a \in 1..3 : AxisOf(line, a) # <<>>
Moved(q, line, rel) == [a \in 1..3 |-> IF AxisOf(line, a) = <<>> THEN q[a] ELSE IF rel THEN q[a] + AxisOf(line, a)[1] ELSE AxisOf(line, a)[1]]
GcodeStep(rs, line) ==
  LET w == W(line, 1)
      mv == w[1] = "s" /\ w[3] \in {"G1", "G2", "G3"}
      st == Txt(w, "G92")
      q2 == Moved(rs.q, line, mv /\ rs.ph = "rel") IN
  CASE mv \/ st -> IF BadAxis(line) THEN Fail(rs)
                   ELSE IF Moves(line) THEN Emit([rs EXCEPT !.q = q2], <<"p">> \o q2) ELSE Go(rs)
    [] Txt(w, "G90") -> Go([rs EXCEPT !.ph = "abs"])
    [] Txt(w, "G91") -> Go([rs EXCEPT !.ph = "rel"])
    [] OTHER -> Go(rs)

\* ---------------------------------------------------------------- OBJ
IsRef(w) == w[1] \in {"i", "r"} /\ w[2] >= 1
ObjStep(rs, line, faces) ==
  CASE Txt(W(line, 1), "v") -> IF Fs(line, 2, 4) THEN Emit(rs, P(line, 2)) ELSE Fail(rs)
    [] Txt(W(line, 1), "f") /\ faces ->
         IF \A i \in 2..4 : IsRef(W(line, i)) THEN Emit(rs, <<"f", line[2][2] - 1, line[3][2] - 1, line[4][2] - 1>>) ELSE Fail(rs)
    [] OTHER -> Go(rs)

\* ---------------------------------------------------------------- OFF
OffStep(rs, line, faces) ==
  IF rs.ph = "off" /\ Txt(W(line, 1), "OFF") THEN Go([rs EXCEPT !.ph = "counts"])
  ELSE IF line = <<>> \/ W(line, 1)[1] = "c" THEN Go(rs)
  ELSE IF rs.ph \in {"off", "counts"}
       THEN IF IsU(line[1]) /\ (faces => IsU(W(line, 2)))
            THEN Emit([rs EXCEPT !.ph = "data", !.n = line[1][2], !.m = IF faces THEN line[2][2] ELSE 0],
                      IF faces THEN <<"r", line[1][2], line[2][2]>> ELSE <<"r", line[1][2]>>)
            ELSE Fail(rs)
  ELSE IF rs.n > 0 THEN IF Fs(line, 1, 3) THEN Emit([rs EXCEPT !.n = @ - 1], P(line, 1)) ELSE Fail(rs)
  ELSE IF rs.m > 0
       THEN IF W(line, 1) = <<"i", 3, "">> /\ \A i \in 2..4 : IsU(W(line, i))
            THEN Emit([rs EXCEPT !.m = @ - 1], <<"f", line[2][2], line[3][2], line[4][2]>>) ELSE Fail(rs)
  ELSE Stop(rs)

\* ---------------------------------------------------------------- ASCII STL
Vtx(line) == IF Len(line) >= 4 /\ Fs(line, 2, 4) THEN Vals(line, 2, 4) ELSE NoF
StlStep(rs, line) ==
  CASE rs.ph = "solid" -> Go([rs EXCEPT !.ph = "facet", !.q = <<>>])
    [] rs.ph = "facet" ->
         IF Txt(W(line, 1), "endsolid") THEN Stop(rs)
         ELSE IF ~Txt(W(line, 1), "facet") THEN Fail(rs)
         ELSE Go([rs EXCEPT !.ph = "outer", !.q = IF Len(line) >= 5 /\ Fs(line, 3, 5) THEN Vals(line, 3, 5) ELSE <<0, 0, 1000>>])
    [] rs.ph = "outer" -> IF Txt(W(line, 1), "outer") /\ Txt(W(line, 2), "loop") THEN Go([rs EXCEPT !.ph = "v"]) ELSE Fail(rs)
    [] rs.ph = "v" ->
         IF Vtx(line) = NoF THEN Fail(rs)
         ELSE Go([rs EXCEPT !.q = @ \o Vtx(line), !.ph = IF Len(rs.q) = 9 THEN "endloop" ELSE "v"])
    [] rs.ph = "endloop" -> IF Txt(W(line, 1), "endloop") THEN Go([rs EXCEPT !.ph = "endfacet"]) ELSE Fail(rs)
    [] rs.ph = "endfacet" ->
         IF ~Txt(W(line, 1), "endfacet") THEN Fail(rs)
         ELSE LET p(k) == <<"p", rs.q[k], rs.q[k + 1], rs.q[k + 2]>> IN
              Emit([rs EXCEPT !.ph = "facet", !.q = <<>>], <<"t", p(4), p(7), p(10), p(1)>>)

Step(fmt, rs, line) ==
  CASE fmt = "xy" -> XyStep(rs, line) [] fmt = "xyz" -> XyzStep(rs, line)
    [] fmt = "pts" -> PtsStep(rs, line) [] fmt = "ptx" -> PtxStep(rs, line)
    [] fmt = "gcode" -> GcodeStep(rs, line)
    [] fmt = "obj" -> ObjStep(rs, line, TRUE) [] fmt = "objp" -> ObjStep(rs, line, FALSE)
    [] fmt = "off" -> OffStep(rs, line, TRUE) [] fmt = "offp" -> OffStep(rs, line, FALSE)
    [] fmt = "stl" -> StlStep(rs, line)
\* what the end of the file means in a state
Complete(fmt, rs) ==
  CASE fmt = "pts" -> rs.n = 0
    [] fmt = "ptx" -> rs.ph = "1"
    [] fmt \in {"off", "offp"} -> rs.ph = "data" /\ rs.n = 0 /\ rs.m = 0
    [] fmt = "stl" -> rs.ph = "facet"
    [] OTHER -> TRUE

\* the whole run over the first k lines: items, how it ended ("" if it has not), on which line
RECURSIVE Fold(_, _, _, _, _, _)
Fold(fmt, lines, k, i, rs, items) ==
  IF i > k THEN [items |-> items, fin |-> "", line |-> 0, rs |-> rs]
  ELSE LET s == Step(fmt, rs, lines[i]) IN
       IF s.fin # "" THEN [items |-> items \o s.out, fin |-> s.fin, line |-> i, rs |-> s.rs]
       ELSE Fold(fmt, lines, k, i + 1, s.rs, items \o s.out)
Run(fmt, lines, k) == Fold(fmt, lines, k, 1, Start(fmt), <<>>)
\* the run over a whole file; an error at its end has no line
Whole(fmt, lines) ==
  LET r == Run(fmt, lines, Len(lines)) IN
  IF r.fin # "" THEN r ELSE [r EXCEPT !.fin = IF Complete(fmt, r.rs) THEN "end" ELSE "err"]

\* ---------------------------------------------------------------- what the loaders collect
Points(items) == SelectSeq(items, LAMBDA x : x[1] = "p")
Faces(items) == SelectSeq(items, LAMBDA x : x[1] = "f")
NPointsBefore(items, i) == Cardinality({j \in 1..i - 1 : items[j][1] = "p"})
FaceOk(items, i) ==
  LET f == items[i] IN /\ f[2] # f[3] /\ f[2] # f[4] /\ f[3] # f[4]
                       /\ \A c \in 2..4 : f[c] < NPointsBefore(items, i)
LoadOk(items, fin) == fin = "end" /\ \A i \in 1..Len(items) : items[i][1] = "f" => FaceOk(items, i)
\* facets with equal points merged: vertices in order of first use, degenerate facets left out together with their normals
Facets(items) == SelectSeq(items, LAMBDA x : x[1] = "t")
RECURSIVE Corners(_)
Corners(ts) == IF ts = <<>> THEN <<>> ELSE <<ts[1][2], ts[1][3], ts[1][4]>> \o Corners(SubSeq(ts, 2, Len(ts)))
RECURSIVE Uniq(_, _)
Uniq(ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE Uniq(SubSeq(ps, 2, Len(ps)), IF \E i \in 1..Len(acc) : acc[i] = ps[1] THEN acc ELSE Append(acc, ps[1]))
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Proper(t) == t[2] # t[3] /\ t[2] # t[4] /\ t[3] # t[4]
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
UniqueMesh(items) ==
  LET ts == Facets(items)  vs == Uniq(Corners(ts), <<>>)  ok == SelectSeq(ts, Proper) IN
  [p |-> vs, f |-> [i \in 1..Len(ok) |-> <<"f", Pos(vs, ok[i][2]) - 1, Pos(vs, ok[i][3]) - 1, Pos(vs, ok[i][4]) - 1>>],
   n |-> [i \in 1..Len(ok) |-> ok[i][5]]]
DupedMesh(items) ==
  LET ts == Facets(items) IN
  [p |-> Corners(ts), f |-> [i \in 1..Len(ts) |-> <<"f", 3 * i - 3, 3 * i - 2, 3 * i - 1>>], n |-> [i \in 1..Len(ts) |-> ts[i][5]]]
=============================================================================
