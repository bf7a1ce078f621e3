------------------------------ MODULE RayTrace ------------------------------
(* C40: casting a ray against boxes, triangles, meshes and collections of    *)
(* things which may have a bounding box.  Everything is decided exactly in   *)
(* integers: a ray starts at c.a and runs along c.d (not of unit length).    *)
(* Rays that merely touch (graze an edge, slide along a face, start on the   *)
(* surface) may be reported or not; everything else is settled.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* fractions <<p, q>> with q > 0
Frac(p, q) == IF q < 0 THEN <<-p, -q>> ELSE <<p, q>>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
\* the point of the ray at the fraction f, recorded in thousandths
At(c, f, o) == \A j \in 1..3 : 2 * Abs(o[j] * f[2] - 1000 * (c.a[j] * f[2] + c.d[j] * f[1])) <= f[2] + 1
\* --- boxes: c.d nonzero on Moving; each axis gives an interval of the ray
Moving(c) == {i \in 1..3 : c.d[i] # 0}
Enter(c, b, i) == IF c.d[i] > 0 THEN Frac(b[1][i] - c.a[i], c.d[i]) ELSE Frac(b[2][i] - c.a[i], c.d[i])
Leave(c, b, i) == IF c.d[i] > 0 THEN Frac(b[2][i] - c.a[i], c.d[i]) ELSE Frac(b[1][i] - c.a[i], c.d[i])
First(c, b) == CHOOSE f \in {Enter(c, b, i) : i \in Moving(c)} : \A i \in Moving(c) : Leq(Enter(c, b, i), f)
End(c, b) == CHOOSE f \in {Leave(c, b, i) : i \in Moving(c)} : \A i \in Moving(c) : Leq(f, Leave(c, b, i))
Zero == <<0, 1>>
\* the ray has a point strictly inside the box / in the closed box
Pierces(c, b) == /\ \A i \in 1..3 \ Moving(c) : b[1][i] < c.a[i] /\ c.a[i] < b[2][i]
                 /\ Less(First(c, b), End(c, b)) /\ Less(Zero, End(c, b))
Meets(c, b) == /\ \A i \in 1..3 \ Moving(c) : b[1][i] <= c.a[i] /\ c.a[i] <= b[2][i]
               /\ Leq(First(c, b), End(c, b)) /\ Leq(Zero, End(c, b))
\* from outside the point where the ray enters; from inside either point where the line crosses the surface
Outside(c, b) == Less(Zero, First(c, b))
PointOk(c, b, o) == At(c, First(c, b), o) \/ (~Outside(c, b) /\ At(c, End(c, b), o))
BoxHit(c, b, o) == IF o = <<>> THEN ~Pierces(c, b) ELSE Meets(c, b) /\ PointOk(c, b, o)
\* --- a collection c.items: <<>> has no bounding box
Cast(c, o) ==
  LET n == Len(c.items)
      hit(i) == o.each[i]            \* what the ray and the box alone give
      H == SelectSeq([i \in 1..n |-> i], LAMBDA i : hit(i) # <<>>)
      best(r) == IF H = <<>> THEN r = <<>>
                 ELSE /\ Len(r) = 2 /\ r[1] + 1 \in ToSet(H) /\ r[2] = hit(r[1] + 1)
                      /\ Outside(c, c.items[r[1] + 1]) =>
                           \A j \in ToSet(H) : Outside(c, c.items[j]) => Leq(First(c, c.items[r[1] + 1]), First(c, c.items[j]))
  IN /\ Len(o.each) = n
     /\ \A i \in 1..n : IF c.items[i] = <<>> THEN hit(i) = <<>> ELSE BoxHit(c, c.items[i], hit(i))
     /\ o.all = [k \in 1..Len(H) |-> <<H[k] - 1, hit(H[k])>>]
     /\ o.touched = [i \in 1..n |-> IF hit(i) # <<>> THEN 1 ELSE 0]
     /\ best(o.first) /\ best(o.mut) /\ best(o.index)
\* --- triangles
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(a, b, c) == Dot(a, Cross(b, c))
Flat(T) == Cross(Sub(T[2], T[1]), Sub(T[3], T[1])) = <<0, 0, 0>>
TriHit(c, T, o) ==
  LET n == Cross(Sub(T[2], T[1]), Sub(T[3], T[1]))
      q == Dot(n, c.d)
      p == Dot(n, Sub(T[1], c.a))
      f == Frac(p, q)
      v(i) == Sub(T[i], c.a)
      S == <<Sign(Det(c.d, v(1), v(2))), Sign(Det(c.d, v(2), v(3))), Sign(Det(c.d, v(3), v(1)))>>
      within == S = <<1, 1, 1>> \/ S = <<-1, -1, -1>>
      out == \E i, j \in 1..3 : S[i] * S[j] = -1          \* the line passes the triangle
  IN IF Flat(T) THEN TRUE
     ELSE IF out \/ (q = 0 /\ p # 0) \/ (q # 0 /\ f[1] < 0) THEN o = <<>>
     ELSE IF q = 0 THEN TRUE                               \* within the plane of the triangle
     ELSE /\ within /\ f[1] > 0 => o # <<>>
          /\ o # <<>> => At(c, f, o)
\* the mesh reports what its faces report, face by face, after what was collected before
MeshHits(c, o) ==
  /\ Len(o.each) = Len(c.F)
  /\ \A i \in 1..Len(c.F) : TriHit(c, [k \in 1..3 |-> c.P[c.F[i][k] + 1]], o.each[i])
  /\ o.all = <<<<7000, 8000, 9000>>>> \o SelectSeq(o.each, LAMBDA x : x # <<>>)
Conforms == l = 1 => LET c == Traces[t]  o == c.obs IN
  CASE c.kind = "cast" -> Cast(c, o)
    [] c.kind = "mesh" -> MeshHits(c, o)
=============================================================================
