------------------------------- MODULE Bodies -------------------------------
(* Boxes and bodies (C18-C20, C23).  A box is [lo, hi].  A body is a box, as   *)
(* it is or turned around the z axis through its centre: kind "r345" by the    *)
(* angle with cosine 3/5 and sine 4/5 (clockwise seen from +z), everything     *)
(* else does not change its extent.  Turned corners are integers in units of   *)
(* 1/10.  Two such prisms are apart iff the sides of one of them or z separate *)
(* them (complete, since both stand upright).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Overlap(n, x, y) == \A d \in 1..n : x.lo[d] < y.hi[d] /\ y.lo[d] < x.hi[d]
Apart(n, x, y) == \E d \in 1..n : x.hi[d] < y.lo[d] \/ y.hi[d] < x.lo[d]
Crosses(x, d, v) == x.lo[d] < v /\ v < x.hi[d]

Turned(b) == b.kind = "r345"
\* corners in the plane, in 1/10
Plan(b) ==
  LET c == <<b.lo[1] + b.hi[1], b.lo[2] + b.hi[2]>>
      s == <<b.hi[1] - b.lo[1], b.hi[2] - b.lo[2]>> IN
  {IF Turned(b) THEN <<5 * c[1] + u * 3 * s[1] + v * 4 * s[2], 5 * c[2] - u * 4 * s[1] + v * 3 * s[2]>>
   ELSE <<5 * c[1] + u * 5 * s[1], 5 * c[2] + v * 5 * s[2]>> : u \in {-1, 1}, v \in {-1, 1}}
Dot(p, a) == p[1] * a[1] + p[2] * a[2]
Top(S) == CHOOSE x \in S : \A y \in S : x >= y
Bot(S) == CHOOSE x \in S : \A y \in S : x <= y
Axes == {<<1, 0>>, <<0, 1>>, <<3, -4>>, <<4, 3>>}
Gap(b, c, a) == LET p == {Dot(x, a) : x \in Plan(b)}  q == {Dot(x, a) : x \in Plan(c)} IN
                LET g == Bot(q) - Top(p)  h == Bot(p) - Top(q) IN IF g > h THEN g ELSE h
UsedAxes(b, c) == {a \in Axes : \/ a[1] * a[2] = 0 /\ (~Turned(b) \/ ~Turned(c))
                                \/ a[1] * a[2] # 0 /\ (Turned(b) \/ Turned(c))}
BodiesOverlap(b, c) == /\ b.lo[3] < c.hi[3] /\ c.lo[3] < b.hi[3]
                       /\ \A a \in UsedAxes(b, c) : Gap(b, c, a) < 0
BodiesApart(b, c) == \/ b.hi[3] < c.lo[3] \/ c.hi[3] < b.lo[3]
                     \/ \E a \in UsedAxes(b, c) : Gap(b, c, a) > 0
\* rays: [a, d]; bounds of the ray parameter inside the slab of dimension k, as <<n1, n2, den>> with den > 0
Slab(r, b, k) == IF r.d[k] > 0 THEN <<b.lo[k] - r.a[k], b.hi[k] - r.a[k], r.d[k]>>
                 ELSE <<r.a[k] - b.hi[k], r.a[k] - b.lo[k], -r.d[k]>>
Moving(r) == {k \in 1..3 : r.d[k] # 0}
\* runs through the inside, in front of its anchor
RayThrough(r, b) ==
  /\ \A k \in (1..3) \ Moving(r) : Crosses(b, k, r.a[k])
  /\ \A k \in Moving(r) : Slab(r, b, k)[2] > 0
  /\ \A k, m \in Moving(r) : Slab(r, b, k)[1] * Slab(r, b, m)[3] < Slab(r, b, m)[2] * Slab(r, b, k)[3]
\* the whole line stays away
LineMisses(r, b) ==
  \/ \E k \in (1..3) \ Moving(r) : r.a[k] < b.lo[k] \/ r.a[k] > b.hi[k]
  \/ \E k, m \in Moving(r) : Slab(r, b, k)[1] * Slab(r, b, m)[3] > Slab(r, b, m)[2] * Slab(r, b, k)[3]
=============================================================================
