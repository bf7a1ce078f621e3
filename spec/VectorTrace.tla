---------------------------- MODULE VectorTrace ----------------------------
(* C42: arithmetic of points and directions, lengths, distances, angles,     *)
(* normals, projections, the n-dimensional interface and the numbers that    *)
(* promise their sign.  Coordinates are integers; quantities with roots are  *)
(* recorded in hundredths or thousandths and bounded by integer roots.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sq(x) == x * x
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)   \* the floor of the root of n < 2^31
Map2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Add(x, y) == x + y
Sub(x, y) == x - y
Dot(a, b) == FoldLeft(LAMBDA s, x : s + x, 0, [i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Norm2(a) == Dot(a, a)
Diff(a, b) == Map2(Sub, a, b)
\* o: the square of a recorded root to the next integer, and what is left in 10^-15 of it
RootOf(o, n) == o[1] = n /\ Abs(o[2]) <= 4
\* unit vectors are of length 1
Length1(o) == \A i \in 1..Len(o.len1) : Abs(o.len1[i]) <= 4
\* o = 1000 * v / (root of n): a component of a unit vector, or a cosine
Unit(o, v, n) == LET R == ISqrt(10000 * n) IN Abs(o * R - 100000 * v) <= R \div 2 + 1003 /\ (v = 0 => o = 0)
UnitVec(o, a) == Len(o) = Len(a) /\ \A i \in 1..Len(a) : Unit(o[i], a[i], Norm2(a))
Zero(a) == \A i \in 1..Len(a) : a[i] = 0
Cmp(x, y) == Sign(x - y)
Idx(a, S) == [i \in 1..Len(S) |-> a[S[i]]]
\* --- two points a, b and a factor k
Pair(c, o) ==
  LET a == c.a  b == c.b  d == Len(a)  s == Diff(a, b)
      nd(q) == [i \in 1..(d + 1) |-> IF i <= d THEN <<q[i]>> ELSE <<>>]
  IN /\ o.add = Map2(Add, a, b) /\ o.sub = s /\ o.neg = [i \in 1..d |-> -a[i]]
     /\ o.mul = [i \in 1..d |-> c.k * a[i]] /\ (c.k # 0 => o.div = a)
     /\ o.dot = Dot(a, b) /\ o.conn = [i \in 1..d |-> -s[i]]
     /\ (d = 3 => o.cross = Cross(a, b)) /\ (d = 2 => o.cross = <<a[1] * b[2] - a[2] * b[1]>>)
     /\ \A i \in 1..Len(o.sq) : o.sq[i] = Norm2(s)
     /\ \A i \in 1..Len(o.dist) : RootOf(o.dist[i], Norm2(s))
     /\ RootOf(o.abs, Norm2(a))
     /\ \A i \in 1..Len(o.mid) : o.mid[i] = Map2(Add, a, b)
     /\ o.parts = (IF d = 3 THEN <<a, Idx(a, <<1, 2>>), Idx(a, <<1, 3>>), Idx(a, <<2, 3>>)>> ELSE <<a>>)
     /\ o.nd = nd(a) /\ o.dims = d
     /\ o.setnd = [i \in 1..(d + 1) |-> IF i <= d THEN [j \in 1..d |-> IF j = i THEN b[i] ELSE a[j]] ELSE <<>>]
     /\ o.newnd = <<<<>>, a, <<>>>>                    \* one coordinate too few, all, one too many
     /\ o.fromnd = <<b, <<>>>>                          \* from a point of the same, another dimension
     /\ Length1(o) /\ Abs(o.turn) <= 2
     /\ o.otherdim                                      \* distances between dimensions are refused
     /\ o.sets = (IF d = 3 THEN <<b, <<b[1], b[2], a[3]>>, <<b[1], a[2], b[3]>>, <<a[1], b[2], b[3]>>>> ELSE <<b>>)
     /\ (d = 3 => /\ o.dimcmp = <<<<Cmp(a[1], b[1])>>, <<Cmp(a[2], b[2])>>, <<Cmp(a[3], b[3])>>, <<>>, <<>>>>
                  /\ o.dimdist = <<<<Abs(s[1])>>, <<Abs(s[2])>>, <<Abs(s[3])>>, <<>>, <<>>>>
                  /\ o.flat = <<a[1], a[2]>>)
     /\ (d = 2 => o.lifted = <<a[1], a[2], c.k>>)
     /\ o.ord = Cmp(Norm2(a), Norm2(b)) /\ o.eq = (a = b) /\ (a = b => o.hash)
     /\ IF Zero(a) THEN o.unit = <<>> /\ o.normed = <<>> ELSE UnitVec(o.unit, a) /\ UnitVec(o.normed, a)
     /\ (~Zero(a) => /\ o.nneg = [i \in 1..d |-> -o.unit[i]]
                     /\ \A i \in 1..d : Abs(o.ntimes[i] - 2 * o.unit[i]) <= 1)
     /\ IF d = 3 THEN IF Zero(a) \/ Zero(b) THEN o.angle = <<>>
                      ELSE o.angle # <<>> /\ Unit(o.angle[1], Dot(a, b), Norm2(a) * Norm2(b)) /\ o.angle[2] = 1
                 ELSE IF a = b THEN TRUE    \* the direction from a to b
                      ELSE UnitVec(o.angle, [i \in 1..2 |-> -s[i]])
\* --- a path of points: its length, and the length of the closed loop
PathOk(c, o) ==
  LET n == Len(c.P)
      len(m) == FoldLeft(LAMBDA s, i : s + ISqrt(10000 * Norm2(Diff(c.P[i], c.P[(i % n) + 1]))), 0, [i \in 1..m |-> i])
      near(x, m) == x >= len(m) - 1 /\ x <= len(m) + m + 1
  IN IF n = 0 THEN o.open = 0 /\ o.closed = 0
     ELSE near(o.open, n - 1) /\ near(o.closed, n) /\ (n = 2 => LET q == Norm2(Diff(c.P[1], c.P[2])) IN RootOf(o.seg, q) /\ RootOf(o.one, q))
\* --- the corners of a triangle: normals of the face, of the mesh at each vertex
NormalOk(c, o) ==
  LET n == Cross(Diff(c.P[2], c.P[1]), Diff(c.P[3], c.P[1]))
      z == <<0, 0, 1000>>
  IN /\ o.beyond /\ Length1(o)
     /\ IF Zero(n) THEN o.face = <<>> /\ o.of = z /\ \A i \in 1..Len(o.at) : o.at[i] = z
        ELSE UnitVec(o.face, n) /\ UnitVec(o.of, n) /\ \A i \in 1..Len(o.at) : UnitVec(o.at[i], n)
\* --- a plane through c.o spanned by the unit vectors c.u / c.h, c.v / c.h
PlaneOk(c, o) == o.p = <<Dot(c.u, Diff(c.p, c.o)), Dot(c.v, Diff(c.p, c.o))>> /\ o.origin = c.o
                 /\ UnitVec(o.u, c.u) /\ UnitVec(o.v, c.v) /\ Length1(o)
\* --- a direction field pointing to c.u everywhere, tolerance the angle with cosine c.z[1] / c.z[3], elements with direction c.v
\* compares Dot / root(n) with z1 / z3: 1 above, -1 below, 0 equal
CosCmp(dot, n, z) == LET A == Sign(dot) * Sq(dot) * Sq(z[3])  B == Sign(z[1]) * Sq(z[1]) * n IN Sign(A - B)
FieldOk(c, o) == \A i \in 1..Len(c.V) :
  LET x == CosCmp(Dot(c.u, c.V[i]), Norm2(c.u) * Norm2(c.V[i]), c.z) IN
  /\ x > 0 => o.a[i]
  /\ x < 0 => ~o.a[i]
\* --- numbers that promise their sign
NumOk(c, o) ==
  LET a == c.a  b == c.b IN
  /\ o.pos = (a > 0) /\ o.non = (a >= 0)
  /\ (a > 0 /\ b > 0 => \A i \in 1..Len(o.pp) : o.pp[i] = <<a + b, a * b, a>>[((i - 1) % 3) + 1])
  /\ (a >= 0 /\ b > 0 => \A i \in 1..Len(o.np) : o.np[i] = <<a + b, a * b, a>>[((i - 1) % 3) + 1])
  /\ (a >= 0 /\ b >= 0 => /\ \A i \in 1..Len(o.nn) : o.nn[i] = <<a + b, a * b, a>>[((i - 1) % (IF b = 0 THEN 2 ELSE 3)) + 1]
                          /\ \A i \in 1..Len(o.root) : RootOf(o.root[i], a))
\* --- text: words to a point of c.dim dimensions; each word [good, milli]
TextOk(c, o) ==
  /\ o.parsed = (IF Len(c.words) = c.dim /\ \A i \in 1..Len(c.words) : c.words[i][1] = 1 THEN [i \in 1..c.dim |-> c.words[i][2]] ELSE <<>>)
\* --- sorting by a coordinate; a plane figure pulled along a direction
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
SortOk(c, o) ==
  /\ Len(o.by) = Len(c.P[1])
  /\ \A d \in 1..Len(o.by) : SameBag(o.by[d], c.P) /\ \A i \in 1..(Len(c.P) - 1) : o.by[d][i][d] <= o.by[d][i + 1][d]
  /\ o.low = [d \in 1..Len(o.by) |-> FoldLeft(LAMBDA m, p : IF p[d] < m THEN p[d] ELSE m, c.P[1][d], c.P)]
  /\ o.high = [d \in 1..Len(o.by) |-> FoldLeft(LAMBDA m, p : IF p[d] > m THEN p[d] ELSE m, c.P[1][d], c.P)]
ExtrudeOk(c, o) ==
  /\ o.a = [i \in 1..Len(c.P) |-> <<c.P[i][1], c.P[i][2], 0>>]
  /\ o.b = [i \in 1..Len(c.P) |-> <<c.P[i][1] + c.u[1], c.P[i][2] + c.u[2], c.u[3]>>]
\* --- equal neighbours packed into indices (the first occurrence counts)
PackOk(c, o) ==
  LET U == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, c.P) IN
  /\ Len(o.ids) = Len(c.P) /\ ToSet(o.unique) = ToSet(U) /\ Len(o.unique) = Len(U)
  /\ \A i \in 1..Len(c.P) : o.unique[o.ids[i] + 1] = c.P[i]
RoundTrip(c, o) == \A i \in 1..Len(o.same) : o.same[i]
Conforms == l = 1 => LET c == Traces[t]  o == c.obs IN
  CASE c.kind = "pair" -> Pair(c, o)
    [] c.kind = "path" -> PathOk(c, o)
    [] c.kind = "normal" -> NormalOk(c, o)
    [] c.kind = "plane" -> PlaneOk(c, o)
    [] c.kind = "field" -> FieldOk(c, o)
    [] c.kind = "num" -> NumOk(c, o)
    [] c.kind = "text" -> TextOk(c, o)
    [] c.kind = "round" -> RoundTrip(c, o)
    [] c.kind = "sort" -> SortOk(c, o)
    [] c.kind = "extrude" -> ExtrudeOk(c, o)
    [] c.kind = "pack" -> PackOk(c, o)
=============================================================================
