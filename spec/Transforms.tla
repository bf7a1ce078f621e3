----------------------------- MODULE Transforms -----------------------------
(* C41: things with a place in the plane or in space are moved, scaled,       *)
(* rotated, sent through matrices and pipelines, centred and resized.         *)
(* Positions are fractions P/den; angles are those of Pythagorean triples, so *)
(* every result is exact.  S: sizes of a box or the radius of a ball.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS MaxOps, Dims, Kinds, Random, Large, PipeOnly
VARIABLES st, hist, done
vars == <<st, hist, done>>
D(s) == 1..s.dim
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
GcdSeq(q, g0) == FoldLeft(LAMBDA g, p : FoldLeft(LAMBDA h, x : Gcd(Abs(x), h), g, p), g0, q)
Reduce(s) == LET g == TLCEval(GcdSeq(Append(s.P, s.S), s.den)) IN
             IF g <= 1 THEN s ELSE [s EXCEPT !.P = [i \in 1..Len(@) |-> [d \in 1..3 |-> @[i][d] \div g]],
                                             !.S = [i \in 1..Len(@) |-> @[i] \div g], !.den = @ \div g]
\* --- bounding boxes
Lo(s, d) == FoldLeft(LAMBDA m, p : IF p[d] < m THEN p[d] ELSE m, s.P[1][d], s.P)
Hi(s, d) == FoldLeft(LAMBDA m, p : IF p[d] > m THEN p[d] ELSE m, s.P[1][d], s.P)
Centred == {"box", "ball", "ubox"}
Clouds == {"pc", "poly", "mesh", "seg"}
\* twice the centre and the size of the box around the thing
C2(s) == IF s.kind \in Centred THEN [d \in 1..3 |-> 2 * s.P[1][d]] ELSE [d \in 1..3 |-> Lo(s, d) + Hi(s, d)]
Size(s) == IF s.kind = "ball" THEN [d \in 1..3 |-> 2 * s.S[1]]
           ELSE IF s.kind \in {"box", "ubox"} THEN [d \in 1..3 |-> s.S[d]] ELSE [d \in 1..3 |-> Hi(s, d) - Lo(s, d)]
HasBox(s) == s.kind \in Centred \/ (Len(s.P) >= 2 /\ \A d \in D(s) : Lo(s, d) < Hi(s, d))
\* --- affine maps: (M p + t) / d
Ident == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Affine(s, M, t, q) == Reduce([s EXCEPT !.P = [i \in 1..Len(@) |-> [r \in 1..3 |->
                        M[r][1] * @[i][1] + M[r][2] * @[i][2] + M[r][3] * @[i][3] + t[r] * s.den]],
                      !.S = [i \in 1..Len(@) |-> @[i] * q], !.den = @ * q])
Diag(v) == <<<<v[1], 0, 0>>, <<0, v[2], 0>>, <<0, 0, v[3]>>>>
Zero == <<0, 0, 0>>
\* rotations by the angle with cosine a[1]/a[3] and sine a[2]/a[3]
RotX(a) == <<<<a[3], 0, 0>>, <<0, a[1], -a[2]>>, <<0, a[2], a[1]>>>>
RotY(a) == <<<<a[1], 0, a[2]>>, <<0, a[3], 0>>, <<-a[2], 0, a[1]>>>>
RotZ(a) == <<<<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, a[3]>>>>
Rot3(s, x, y, z) == Affine(Affine(Affine(s, RotZ(z), Zero, z[3]), RotY(y), Zero, y[3]), RotX(x), Zero, x[3])
RotZ2(s, a) == Affine(s, IF s.dim = 2 THEN <<<<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, a[3]>>>> ELSE RotZ(a), Zero, a[3])
\* rotation around the axis u / k
RotAxis(s, u, k, a) ==
  LET skew == <<<<0, -u[3], u[2]>>, <<u[3], 0, -u[1]>>, <<-u[2], u[1], 0>>>>
      M == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN a[1] * k * k ELSE 0) + a[2] * k * skew[i][j] + (a[3] - a[1]) * u[i] * u[j]]]
  IN Affine(s, M, Zero, a[3] * k * k)
\* scaling by n/m around the point c2 / 2
ScaleAround(s, c2, n, m) ==
  Reduce([s EXCEPT !.P = [i \in 1..Len(@) |-> [d \in 1..3 |-> IF d \in D(s) THEN 2 * n * @[i][d] + (m - n) * c2[d] ELSE 0]],
                   !.S = [i \in 1..Len(@) |-> @[i] * 2 * n], !.den = @ * 2 * m])
Prod(v, q) == FoldSet(LAMBDA d, a : a * v[d], 1, q)
SetSize(s, sz) == LET b == Size(s)  L == Prod(b, D(s)) IN
                  Affine(s, Diag([d \in 1..3 |-> IF d \in D(s) THEN sz[d] * (L \div b[d]) * s.den ELSE L]), Zero, L)
\* the pipeline: scale, then rotate, then translate, then into the camera's place
PipeNone == [t |-> Zero, r |-> <<>>, axis |-> <<>>, s |-> <<1, 1, 1>>, ct |-> Zero]
Turned(s, p) == IF p.r # <<>> THEN (IF s.dim = 2 THEN RotZ2(s, p.r[3]) ELSE Rot3(s, p.r[1], p.r[2], p.r[3]))
                ELSE IF p.axis # <<>> THEN RotAxis(s, p.axis[1], p.axis[2][1], p.axis[3]) ELSE s
Piped(s, p) == Affine(Turned(Affine(s, Diag(p.s), Zero, 1), p), Ident, [d \in 1..3 |-> p.t[d] - p.ct[d]], 1)
Apply(s, op) ==
  CASE op.op = "start" -> s
    [] op.op = "move" -> Affine(s, Ident, op.v, 1)
    [] op.op = "scale" -> IF s.P = <<>> \/ ~HasBox(s) THEN s
                          ELSE IF s.kind \in Centred THEN Reduce([s EXCEPT !.P = [i \in 1..Len(@) |-> [d \in 1..3 |-> @[i][d] * op.m]],
                                                                            !.S = [i \in 1..Len(@) |-> @[i] * op.n], !.den = @ * op.m])
                          ELSE ScaleAround(s, C2(s), op.n, op.m)
    [] op.op = "away" -> ScaleAround(s, [d \in 1..3 |-> 2 * op.v[d] * s.den], op.n, op.m)
    [] op.op = "mat" -> Affine(s, op.M, op.v, op.q)
    [] op.op = "mul" -> Affine(Affine(s, op.M2, op.v2, 1), op.M, op.v, 1)
    [] op.op = "rot" -> IF s.dim = 2 THEN RotZ2(s, op.z) ELSE Rot3(s, op.x, op.y, op.z)
    [] op.op = "axis" -> RotAxis(s, op.u, op.k, op.z)
    [] op.op = "turn" -> Affine(RotZ2(Affine(s, Ident, [d \in 1..3 |-> -op.v[d]], 1), op.z), Ident, op.v, 1)
    [] op.op = "center" -> IF s.P = <<>> \/ ~HasBox(s) THEN s
                           ELSE LET c == C2(s) IN Reduce([s EXCEPT !.P = [i \in 1..Len(@) |-> [d \in 1..3 |-> 2 * @[i][d] - c[d]]],
                                                                   !.S = [i \in 1..Len(@) |-> @[i] * 2], !.den = @ * 2])
    [] op.op = "size" -> IF s.P = <<>> \/ ~HasBox(s) THEN s ELSE SetSize(s, op.v)
    [] op.op = "pt" -> [s EXCEPT !.pipe.t = op.v]
    [] op.op = "pr" -> [s EXCEPT !.pipe.r = <<op.x, op.y, op.z>>, !.pipe.axis = <<>>]
    [] op.op = "pa" -> [s EXCEPT !.pipe.axis = <<op.u, <<op.k>>, op.z>>, !.pipe.r = <<>>]
    [] op.op = "ps" -> [s EXCEPT !.pipe.s = op.v]
    [] op.op = "pc" -> [s EXCEPT !.pipe.ct = op.v]
    [] op.op = "pt-" -> [s EXCEPT !.pipe.t = Zero]
    [] op.op = "pr-" -> [s EXCEPT !.pipe.r = <<>>, !.pipe.axis = <<>>]
    [] op.op = "ps-" -> [s EXCEPT !.pipe.s = <<1, 1, 1>>]
    [] op.op = "pc-" -> [s EXCEPT !.pipe.ct = Zero]
    [] op.op = "cam" -> s                     \* a perspective and a target, set and removed again; an impossible target sets nothing
    [] op.op = "pipe" -> Piped(s, s.pipe)
\* sines, cosines and factors are rounded: from then on it is open whether a flat thing has a box, so no flat ones are made
Step(s, op) == LET a == Apply(s, op) IN [a EXCEPT !.noisy = @ \/ op.op \in {"rot", "axis", "turn", "pipe"}
                                                          \/ (op.op \in {"size", "scale", "away", "mat", "center"} /\ (a.P # s.P \/ a.den # s.den))]
Movable(s) == s.kind # "ball"
Scalable(s) == s.kind \in Clouds \cup {"bb", "box", "ball"}
Matrixable(s) == s.kind \in Clouds \cup {"pt"}
\* --- operations on offer
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>>, <<-4, -3, 5>>}
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, 1, 0>>, 1>>, <<<<0, 0, -1>>, 1>>, <<<<1, 2, 2>>, 3>>, <<<<2, -2, 1>>, 3>>, <<<<0, 3, -4>>, 5>>}
Vecs == {<<1, 0, 0>>, <<0, -2, 0>>, <<0, 0, 3>>, <<-1, 2, 5>>}
Mats == {Ident, <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 2>>>>, <<<<1, 2, 3>>, <<0, -1, 1>>, <<2, 0, 1>>>>, <<<<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, -1>>>>,
         <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>, <<<<1, 1, 0>>, <<1, -2, 0>>, <<0, 0, 1>>>>, <<<<0, 0, 0>>, <<1, 0, 2>>, <<0, 3, -1>>>>}
Flat(s, v) == IF s.dim = 2 THEN <<v[1], v[2], 0>> ELSE v
FlatM(s, M) == IF s.dim = 2 THEN <<<<M[1][1], M[1][2], 0>>, <<M[2][1], M[2][2], 0>>, <<0, 0, 1>>>> ELSE M
Pick(S, n) == IF Random THEN LET k == IF n < Cardinality(S) THEN n ELSE Cardinality(S) IN {RandomElement(S) : i \in 1..k} ELSE S
Ratios == {<<1, 2>>, <<3, 1>>, <<2, 1>>, <<3, 2>>, <<1, 4>>}
Some(S) == Pick(S, 2)
\* the pipes alone: what is set, replaced and removed before the matrix is asked for
PipeOps(s) ==
  LET V == {Flat(s, v) : v \in Some(Vecs)}
      A == Some(Angles)  F == IF s.dim = 2 THEN {<<1, 0, 1>>} ELSE Some(Angles)
      All == {{[op |-> "pipe"]}, {[op |-> "pt", v |-> v] : v \in V}, {[op |-> "ps", v |-> v] : v \in {Flat(s, w) : w \in Some({<<2, 3, 1>>, <<1, -1, 2>>, <<3, 2, 2>>})}},
              {[op |-> "pr", x |-> x, y |-> y, z |-> a] : x \in F, y \in F, a \in A}}
             \cup {{[op |-> o]} : o \in {"pt-", "pr-", "ps-"}}
             \cup (IF s.dim = 2 THEN {} ELSE {{[op |-> "pc", v |-> v] : v \in V}, {[op |-> "pc-"]}, {[op |-> "cam"]},
                                              {[op |-> "pa", u |-> x[1], k |-> x[2], z |-> a] : x \in Some(Axes), a \in A}})
  IN {RandomElement(o) : o \in {RandomElement(All)}}
Ops(s) == IF PipeOnly THEN PipeOps(s) ELSE
  LET V == {Flat(s, v) : v \in Some(Vecs)}
      A == Some(Angles)
      Fix == IF Random THEN Angles ELSE {<<3, 4, 5>>, <<0, -1, 1>>, <<1, 0, 1>>}
      MM == {FlatM(s, M) : M \in Some(Mats)}
  IN (IF Movable(s) THEN {[op |-> "move", v |-> v] : v \in V} ELSE {})
     \cup (IF Scalable(s) THEN {[op |-> "scale", n |-> r[1], m |-> r[2]] : r \in Some(Ratios)} ELSE {})
     \cup (IF s.kind = "pt" THEN {[op |-> "away", v |-> v, n |-> r[1], m |-> r[2]] : v \in V, r \in Some(Ratios)} ELSE {})
     \cup (IF s.kind = "pt" /\ s.dim = 2 THEN {[op |-> "turn", v |-> v, z |-> a] : v \in V, a \in A} ELSE {})
     \cup (IF s.dim = 3 /\ s.kind \in Clouds \cup {"bb", "box"} THEN {[op |-> "center"]} ELSE {})
     \cup (IF s.dim = 3 /\ s.kind \in Clouds THEN {[op |-> "size", v |-> v] : v \in Some({<<1, 1, 1>>, <<2, 4, 6>>, <<5, 1, 3>>})} ELSE {})
     \cup (IF ~Matrixable(s) THEN {} ELSE
           {[op |-> "mat", M |-> M, v |-> v, q |-> q] : M \in MM, v \in V, q \in Some({1, 2})}
           \cup {[op |-> "mul", M |-> M, v |-> v, M2 |-> M2, v2 |-> v2] : M \in MM, M2 \in Some({FlatM(s, X) : X \in Mats}), v \in Some(V), v2 \in Some(V)}
           \cup {[op |-> "rot", x |-> x, y |-> y, z |-> z] : x \in IF s.dim = 2 THEN {<<1, 0, 1>>} ELSE Some(Fix), y \in IF s.dim = 2 THEN {<<1, 0, 1>>} ELSE Some(Fix), z \in A}
           \cup (IF s.dim = 2 THEN {} ELSE {[op |-> "axis", u |-> x[1], k |-> x[2], z |-> a] : x \in Some(Axes), a \in A})
           \cup (IF ~Random /\ s.kind # "pt" THEN {} ELSE
             {[op |-> "pipe"]} \cup {[op |-> "pt", v |-> v] : v \in V}
             \cup {[op |-> "ps", v |-> v] : v \in {Flat(s, w) : w \in Some({<<2, 3, 1>>, <<1, -1, 2>>})}}
             \cup {[op |-> "pr", x |-> x, y |-> y, z |-> a] : x \in IF s.dim = 2 THEN {<<1, 0, 1>>} ELSE Some(Fix), y \in IF s.dim = 2 THEN {<<1, 0, 1>>} ELSE Some(Fix), a \in A}
             \cup (IF s.dim = 2 THEN {} ELSE {[op |-> "pc", v |-> v] : v \in V} \cup {[op |-> "pc-"], [op |-> "cam"]}
                                     \cup {[op |-> "pa", u |-> x[1], k |-> x[2], z |-> a] : x \in Some(Axes), a \in A})
             \cup {[op |-> o] : o \in {"pt-", "pr-", "ps-"}}))
\* numbers stay small enough for the checker and exact in floating point
Big(s) == FoldLeft(LAMBDA g, p : FoldLeft(LAMBDA h, x : IF Abs(x) > h THEN Abs(x) ELSE h, g, p), s.den, Append(s.P, s.S))
Fits(s, op) == /\ Big(s) < 8000 /\ (op.op = "size" => Big(s) < 60)
               /\ (op.op = "size" /\ s.P # <<>> => HasBox(s) /\ Prod(Size(s), D(s)) < 3000)
               /\ LET a == Step(s, op) IN (a.noisy => Len(a.P) < 2 \/ HasBox(a)) /\ Big(a) < 200000 /\ a.den < 40000 /\ (s.kind = "f32" => a.den = 1)
\* --- observations, as numerators over the denominator given along
Obs(s) == [P |-> [i \in 1..Len(s.P) |-> [d \in D(s) |-> s.P[i][d]]],
           S |-> s.S,
           bb |-> IF s.kind \in {"pt", "line", "ray", "vec", "deque", "list"} \/ s.P = <<>> \/ ~HasBox(s) THEN <<>>
                  ELSE <<[d \in D(s) |-> C2(s)[d] - Size(s)[d]], [d \in D(s) |-> C2(s)[d] + Size(s)[d]]>>,
           cog |-> IF s.kind \in Clouds /\ s.P # <<>> THEN [d \in D(s) |-> FoldLeft(LAMBDA a, p : a + p[d], 0, s.P)] ELSE <<>>]
Event(s, op) == LET a == Step(s, op) IN op @@ [den |-> a.den, exp |-> Obs(a)]
\* --- starting shapes
Pts == {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 3, -1>>, <<-2, 1, 4>>, <<0, 4, 2>>, <<5, -3, 3>>, <<-1, -1, -2>>}
Many(n) == [i \in 1..n |-> <<((i * 7) % 9) - 4, ((i * 5) % 11) - 5, ((i * 3 + (i \div 4)) % 7) - 3>>]
Shapes(kind) ==
  CASE kind \in {"pt", "line", "ray"} -> {<<<<2, 3, -1>>>>, <<<<0, 0, 0>>>>}
    [] kind \in {"box", "ball", "ubox"} -> {<<<<2, 3, -1>>>>, <<<<0, 0, 0>>>>}
    [] kind \in {"bb"} -> {<<<<-1, -1, -2>>, <<2, 3, 1>>>>, <<<<0, 0, 0>>, <<1, 2, 3>>>>}
    [] kind = "seg" -> {<<<<2, 3, -1>>, <<-2, 1, 4>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>>>}
    [] OTHER -> {<<>>, <<<<2, 3, -1>>>>, <<<<2, 3, -1>>, <<-2, 1, 4>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 4, 2>>, <<5, -3, 3>>>>,
                 <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>, <<1, 0, 0>>>>}
                 \cup (IF Large THEN {Many(17), Many(33), Many(70)} ELSE {})
Start == {[dim |-> dim, kind |-> k, P |-> [i \in 1..Len(p) |-> IF dim = 2 THEN <<p[i][1], p[i][2], 0>> ELSE p[i]],
           S |-> IF k = "ball" THEN <<3>> ELSE IF k \in {"box", "ubox"} THEN (IF dim = 2 THEN <<2, 5>> ELSE <<2, 5, 3>>) ELSE <<>>, den |-> 1, noisy |-> FALSE, pipe |-> PipeNone]
          : dim \in Dims, k \in Kinds, p \in UNION {Shapes(x) : x \in Kinds}}
Init == /\ done = FALSE
        /\ \E s \in Start : /\ s.P \in {[i \in 1..Len(p) |-> IF s.dim = 2 THEN <<p[i][1], p[i][2], 0>> ELSE p[i]] : p \in Shapes(s.kind)}
                            /\ (s.dim = 2 => s.kind \notin {"mesh", "f32", "ubox"})
                            /\ st = s
                            /\ hist = [fam |-> "xform", dim |-> s.dim, kind |-> s.kind, P |-> s.P, S |-> s.S, ops |-> <<Event(s, [op |-> "start"])>>]
Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) : Fits(st, op) /\ st' = Step(st, op) /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* rotations keep distances (within the fractions), and nothing is ever lost
Sq(x) == x * x
Inv == /\ Len(st.P) = Len(hist.P) /\ Len(st.S) = Len(hist.S) /\ st.den > 0
       /\ \A i \in 1..Len(st.S) : st.S[i] > 0
\* every rotation of the specification is one: M M^T = d^2 I
RotOk == \A a \in Angles : Sq(a[1]) + Sq(a[2]) = Sq(a[3])
ASSUME RotOk
ASSUME \A x \in Axes : Sq(x[1][1]) + Sq(x[1][2]) + Sq(x[1][3]) = Sq(x[2])
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
