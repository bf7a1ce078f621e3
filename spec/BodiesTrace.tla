----------------------------- MODULE BodiesTrace -----------------------------
(* C23: two objects A and B, each a list of bodies (boxes upright or turned    *)
(* around z, or single faces [kind "face", p: 3 points]).                      *)
EXTENDS Bodies, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
IsFace(b) == b.kind = "face"
FBox(f) == [lo |-> [d \in 1..3 |-> Bot({f.p[i][d] : i \in 1..3})], hi |-> [d \in 1..3 |-> Top({f.p[i][d] : i \in 1..3})]]
\* ---- bodies as corners (in 1/10), sides and edges.  Convex bodies are apart iff the normal of a side of one of them or the
\* cross product of an edge of one and an edge of the other one separates them.
Minus3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Zero == <<0, 0, 0>>
FNormal(f) == Cross3(Minus3(f.p[2], f.p[1]), Minus3(f.p[3], f.p[2]))
FEdges(f) == {Minus3(f.p[2], f.p[1]), Minus3(f.p[3], f.p[2]), Minus3(f.p[1], f.p[3])}
Pts(b) == IF IsFace(b) THEN {[d \in 1..3 |-> 10 * b.p[i][d]] : i \in 1..3}
          ELSE {<<p[1], p[2], 10 * z>> : p \in Plan(b), z \in {b.lo[3], b.hi[3]}}
Sides(b) == IF IsFace(b) THEN {FNormal(b)} \cup {Cross3(FNormal(b), e) : e \in FEdges(b)}
            ELSE (IF Turned(b) THEN {<<3, -4, 0>>, <<4, 3, 0>>} ELSE {<<1, 0, 0>>, <<0, 1, 0>>}) \cup {<<0, 0, 1>>}
Edges(b) == IF IsFace(b) THEN FEdges(b) ELSE Sides(b)
Gap3(P, Q, a) == LET p == {Dot3(x, a) : x \in P}  q == {Dot3(x, a) : x \in Q} IN
                 LET g == Bot(q) - Top(p)  h == Bot(p) - Top(q) IN IF g > h THEN g ELSE h
SideAxes(a, b) == (Sides(a) \cup Sides(b)) \ {Zero}
AllAxes(a, b) == (SideAxes(a, b) \cup {Cross3(e, f) : e \in Edges(a), f \in Edges(b)}) \ {Zero}
Flat(b) == IsFace(b) /\ FNormal(b) = Zero      \* a face without area has no sides of its own
Reaches(a, b) == ~Flat(a) /\ ~Flat(b) /\ LET p == Pts(a)  q == Pts(b) IN \A x \in AllAxes(a, b) : Gap3(p, q, x) < 0
KeptApart(a, b) == LET p == Pts(a)  q == Pts(b) IN \E x \in SideAxes(a, b) : Gap3(p, q, x) > 0
Must(a, b) ==
  CASE IsFace(a) /\ IsFace(b) /\ a.p = b.p -> TRUE
    [] IsFace(a) \/ IsFace(b) -> Reaches(a, b)
    [] OTHER -> BodiesOverlap(a, b)
MustNot(a, b) ==
  CASE IsFace(a) \/ IsFace(b) -> KeptApart(a, b)
    [] a.kind = "aabb" /\ b.kind = "aabb" -> ~Overlap(3, a, b)
    [] OTHER -> BodiesApart(a, b)
Extent(b) == IF IsFace(b) THEN [lo |-> [d \in 1..3 |-> 10 * FBox(b).lo[d]], hi |-> [d \in 1..3 |-> 10 * FBox(b).hi[d]]]
             ELSE [lo |-> <<Bot({p[1] : p \in Plan(b)}), Bot({p[2] : p \in Plan(b)}), 10 * b.lo[3]>>,
                   hi |-> <<Top({p[1] : p \in Plan(b)}), Top({p[2] : p \in Plan(b)}), 10 * b.hi[3]>>]
Encloses(x, b) == \A d \in 1..3 : x[1][d] <= Extent(b).lo[d] /\ x[2][d] >= Extent(b).hi[d]
Conforms == l = 1 => LET c == Traces[t]
                o == c.obs IN
  /\ \A i \in 1..Len(c.A), j \in 1..Len(c.B) :
       LET r == o.pairs[i][j] IN
       /\ r[1] = r[2]                               \* the order does not matter
       /\ Must(c.A[i], c.B[j]) => r[1] /\ r[3]
       /\ MustNot(c.A[i], c.B[j]) => ~r[1] /\ ~r[3]
  \* an object collides iff one of its bodies does
  /\ o.both[1] = (\E i \in 1..Len(c.A), j \in 1..Len(c.B) : o.pairs[i][j][1])
  /\ o.both[2] = o.both[1]
  \* the reported bounding box of every body encloses it
  /\ \A i \in 1..Len(c.A) : Encloses(o.boxes[1][i], c.A[i])
  /\ \A i \in 1..Len(c.B) : Encloses(o.boxes[2][i], c.B[i])
=============================================================================
