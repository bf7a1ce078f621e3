------------------------------- MODULE MeshOps -------------------------------
(* C05 healing / clustering, C06 orientation, C07 subdivision.                *)
(* A mesh is [V |-> sequence of positions <<x,y,z>>, F |-> sequence of       *)
(* vertex id triples].  The operators say which output meshes are allowed for *)
(* an input mesh.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Range(s) == {s[i] : i \in 1..Len(s)}
Rot(f) == {<<f[1], f[2], f[3]>>, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}
SameFace(f, g) == g \in Rot(f)
Flip(f) == <<f[1], f[3], f[2]>>
Corners(V, f) == <<V[f[1] + 1], V[f[2] + 1], V[f[3] + 1]>>
Distinct3(f) == f[1] # f[2] /\ f[1] # f[3] /\ f[2] # f[3]
ValidMesh(V, F) == \A i \in 1..Len(F) : Distinct3(F[i]) /\ \A k \in 1..3 : F[i][k] \in 0..(Len(V) - 1)

\* the faces R which survive of the corner sequences C: none is degenerate, each of the others is there once (faces that start at
\* another corner of the same triangle repeat each other), as one of its appearances was written; their order is left open
Surviving(C, R) ==
  LET good == {i \in 1..Len(C) : Distinct3(C[i])} IN
  /\ Range(R) \subseteq {C[i] : i \in good}
  /\ {Rot(R[i]) : i \in 1..Len(R)} = {Rot(C[i]) : i \in good}
  /\ Cardinality({Rot(R[i]) : i \in 1..Len(R)}) = Len(R)

\* ---- healing: vertices are the distinct positions the input faces use, faces are the survivors
HealOk(V, F, R) ==
  LET C == [i \in 1..Len(F) |-> Corners(V, F[i])] IN
  /\ ValidMesh(R.V, R.F)
  /\ \A i, j \in 1..Len(R.V) : R.V[i] = R.V[j] => i = j
  /\ Range(R.V) = UNION {Range(C[i]) : i \in 1..Len(C)}
  /\ Surviving(C, [i \in 1..Len(R.F) |-> Corners(R.V, R.F[i])])

\* ---- clustering on a grid of the given size, anchored at the minimum corner of the bounding box
Coord(V, d) == {V[i][d] : i \in 1..Len(V)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Cell(V, p, size) == [d \in 1..3 |-> (p[d] - MinOf(Coord(V, d))) \div size]
HasBox(V) == Len(V) >= 2 /\ \A d \in 1..3 : MinOf(Coord(V, d)) < MaxOf(Coord(V, d))
Fine(V, size) == \A d \in 1..3 : (MaxOf(Coord(V, d)) - MinOf(Coord(V, d))) \div size >= 2
ClusterOk(V, F, size, R) ==
  IF ~HasBox(V) THEN R.err = "BoundingBoxMissing"
  ELSE IF ~Fine(V, size) THEN R.err = "ClusterTooBig"
  ELSE /\ R.err = ""
       /\ ValidMesh(R.V, R.F)
       /\ Range(R.V) \subseteq Range(V)
       \* one representative per used cluster
       /\ \A i, j \in 1..Len(R.V) : Cell(V, R.V[i], size) = Cell(V, R.V[j], size) => i = j
       /\ LET C == [i \in 1..Len(F) |-> LET c == Corners(V, F[i]) IN [k \in 1..3 |-> Cell(V, c[k], size)]]
          IN /\ {Cell(V, R.V[i], size) : i \in 1..Len(R.V)} = UNION {Range(C[i]) : i \in 1..Len(C)}
             /\ Surviving(C, [i \in 1..Len(R.F) |-> LET c == Corners(R.V, R.F[i]) IN [k \in 1..3 |-> Cell(V, c[k], size)]])

\* ---- orientation
Minus(a, b) == [d \in 1..3 |-> a[d] - b[d]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Normal(V, f) == LET c == Corners(V, f) IN Cross(Minus(c[2], c[1]), Minus(c[3], c[2]))
Touch(f, g) == Range(f) \cap Range(g) # {}
\* all touching faces look to the same side
Agree(V, F) == \A i, j \in 1..Len(F) : i < j /\ Touch(F[i], F[j]) => Dot(Normal(V, F[i]), Normal(V, F[j])) > 0
\* base is an orientation of the input faces; if it makes all touching faces agree, the result has to agree, too
UnifyOk(V, F, base, R) ==
  /\ R.V = V
  /\ Len(R.F) = Len(F)
  /\ \A i \in 1..Len(F) : SameFace(R.F[i], F[i]) \/ SameFace(R.F[i], Flip(F[i]))
  /\ Agree(V, base) => Agree(V, R.F)

\* ---- subdivision
Edge(a, b) == {a, b}
EdgesOf(f) == {Edge(f[1], f[2]), Edge(f[2], f[3]), Edge(f[3], f[1])}
\* vertex coordinates of inputs are even, so midpoints are integers
Mid(V, a, b) == [d \in 1..3 |-> (V[a + 1][d] + V[b + 1][d]) \div 2]
FourFaces(f, x, y, z) == <<<<f[1], x, z>>, <<x, f[2], y>>, <<x, y, z>>, <<z, y, f[3]>>>>
BlockIs(B, want) == \A w \in 1..4 : Cardinality({k \in 1..4 : SameFace(B[k], want[w])}) = 1
SubdivOk(V, F, R) ==
  LET n == Len(V)
      all == UNION {EdgesOf(F[i]) : i \in 1..Len(F)}
      new == n..(Len(R.V) - 1)
      B(i) == <<R.F[4*i-3], R.F[4*i-2], R.F[4*i-1], R.F[4*i]>>
      news(i) == UNION {Range(B(i)[k]) : k \in 1..4} \cap new
      xyz(i) == CHOOSE t \in {<<x, y, z>> : x \in news(i), y \in news(i), z \in news(i)} : BlockIs(B(i), FourFaces(F[i], t[1], t[2], t[3]))
  IN /\ Len(R.V) = n + Cardinality(all)
     /\ SubSeq(R.V, 1, n) = V
     /\ Len(R.F) = 4 * Len(F)
     /\ ValidMesh(R.V, R.F)
     /\ \A i \in 1..Len(F) : \E x \in news(i), y \in news(i), z \in news(i) : BlockIs(B(i), FourFaces(F[i], x, y, z))
     /\ LET use == UNION {{<<Edge(F[i][1], F[i][2]), xyz(i)[1]>>, <<Edge(F[i][2], F[i][3]), xyz(i)[2]>>,
                           <<Edge(F[i][3], F[i][1]), xyz(i)[3]>>} : i \in 1..Len(F)}
        IN /\ Cardinality(use) = Cardinality(all)                      \* one vertex per edge
           /\ Cardinality({u[2] : u \in use}) = Cardinality(all)       \* and one edge per vertex
           /\ \A i \in 1..Len(F) : LET t == xyz(i) IN
                 /\ R.V[t[1] + 1] = Mid(V, F[i][1], F[i][2])
                 /\ R.V[t[2] + 1] = Mid(V, F[i][2], F[i][3])
                 /\ R.V[t[3] + 1] = Mid(V, F[i][3], F[i][1])
=============================================================================
