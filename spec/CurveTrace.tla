----------------------------- MODULE CurveTrace -----------------------------
(* C43: sampled curves.  Every sampling function gives exactly the number of *)
(* points asked for, on its curve, from one end to the other in equal steps. *)
(* Positions are recorded in thousandths; sines and the cosine easing come   *)
(* from the tables below (millionths), between whose entries they are        *)
(* monotone.                                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
\* (1 - cos(pi k / 24)) / 2 for k = 0..24
EaseTable == <<
  0, 4278, 17037, 38060, 66987, 103323, 146447, 195619, 250000, 308658, 
  370590, 434737, 500000, 565263, 629410, 691342, 750000, 804381, 853553, 
  896677, 933013, 961940, 982963, 995722, 1000000 >>
\* sin(k degrees) for k = 0..90
SinTable == <<
  0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434, 
  173648, 190809, 207912, 224951, 241922, 258819, 275637, 292372, 309017, 
  325568, 342020, 358368, 374607, 390731, 406737, 422618, 438371, 453990, 
  469472, 484810, 500000, 515038, 529919, 544639, 559193, 573576, 587785, 
  601815, 615661, 629320, 642788, 656059, 669131, 681998, 694658, 707107, 
  719340, 731354, 743145, 754710, 766044, 777146, 788011, 798636, 809017, 
  819152, 829038, 838671, 848048, 857167, 866025, 874620, 882948, 891007, 
  898794, 906308, 913545, 920505, 927184, 933580, 939693, 945519, 951057, 
  956305, 961262, 965926, 970296, 974370, 978148, 981627, 984808, 987688, 
  990268, 992546, 994522, 996195, 997564, 998630, 999391, 999848, 1000000 >>
\* o = p / q in thousandths, q > 0
Near(o, p, q) == 2 * Abs(o * q - 1000 * p) <= q + 2
Between(o, a, b, slack) == (a <= b /\ a - slack <= o /\ o <= b + slack) \/ (b < a /\ b - slack <= o /\ o <= a + slack)
\* --- along a path whose segments have whole lengths
LenSeg(P, j) == ISqrt(Sq(P[j + 1][1] - P[j][1]) + Sq(P[j + 1][2] - P[j][2]))
Cum(P) == FoldLeft(LAMBDA acc, j : Append(acc, acc[Len(acc)] + LenSeg(P, j)), <<0>>, [j \in 1..(Len(P) - 1) |-> j])
\* y0 + (y1 - y0) * ease(p / q), in thousandths
EaseOk(o, y0, y1, p, q) ==
  LET k == (24 * p) \div q
      v(i) == 1000 * y0 + ((y1 - y0) * EaseTable[i + 1]) \div 1000
  IN Between(o, v(k), v(IF (24 * p) % q = 0 THEN k ELSE k + 1), 2)
PathOk(c, o) ==
  LET P == c.P  n == c.n  C == Cum(P)  L == C[Len(P)]
      one(i, a, b) ==   \* the i-th sample (from 0): a linear, b cosine
        IF L = 0 \/ n = 1 THEN \A r \in {a, b} : r = <<1000 * P[1][1], 1000 * P[1][2]>>
        ELSE \E j \in 1..(Len(P) - 1) :
               /\ C[j + 1] > C[j] /\ C[j] * (n - 1) <= i * L /\ i * L <= C[j + 1] * (n - 1)
               /\ \A g \in 1..(j - 1) : C[g + 1] * (n - 1) < i * L \/ C[g + 1] = C[g]
               /\ LET q == (C[j + 1] - C[j]) * (n - 1)  p == i * L - C[j] * (n - 1) IN
                  /\ \A d \in 1..2 : Near(a[d], P[j][d] * q + (P[j + 1][d] - P[j][d]) * p, q)
                  /\ Near(b[1], P[j][1] * q + (P[j + 1][1] - P[j][1]) * p, q)
                  /\ EaseOk(b[2], P[j][2], P[j + 1][2], p, q)
  IN IF Len(P) < 2 THEN o.lin = "TooFewPoints" /\ o.cos = "TooFewPoints"
     ELSE /\ Len(o.lin) = n /\ Len(o.cos) = n
          /\ \A i \in 1..n : one(i - 1, o.lin[i], o.cos[i])
\* --- Bezier curves at i / n for i = 0..n-1
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
BezierOk(c, o) ==
  LET P == c.P  g == Len(P) - 1  n == c.n
      W(i) == [k \in 0..g |-> Choose(g, k) * Pow(i, k) * Pow(n - i, g - k)]
      at(i, d) == LET w == TLCEval(W(i)) IN FoldLeft(LAMBDA s, k : s + w[k] * P[k + 1][d], 0, [k \in 1..(g + 1) |-> k - 1])
  IN IF Len(P) < 2 THEN o.bez = "TooFewPoints"
     ELSE Len(o.bez) = n /\ \A i \in 1..n : \A d \in 1..2 : Near(o.bez[i][d], at(i - 1, d), Pow(n, g))
\* control points in equal steps along a segment: the curve runs evenly along it
EvenOk(c, o) ==
  /\ Len(o.bez) = c.n
  /\ \A i \in 1..c.n : \A d \in 1..2 : Near(o.bez[i][d], c.A[d] * c.n + c.D[d] * c.g * (i - 1), c.n)
\* --- circles: the angle of the i-th of n points between a and b (degrees), as p / q
Sin(k) == LET m == k % 360 IN IF m <= 90 THEN SinTable[m + 1] ELSE IF m <= 180 THEN SinTable[181 - m]
                              ELSE IF m <= 270 THEN -SinTable[m - 179] ELSE -SinTable[361 - m]
Cos(k) == Sin(k + 90)
Down(p, q) == p \div q
Up(p, q) == IF p % q = 0 THEN p \div q ELSE (p \div q) + 1
Ang(c, i) == IF c.n < 2 THEN <<c.a, 1>> ELSE <<c.a * (c.n - 1) + i * (c.b - c.a), c.n - 1>>
\* center + r * F(angle), thousandths
Round(o, z, r, F(_), f) == Between(1000 * o, 1000000 * z + r * F(Down(f[1], f[2])), 1000000 * z + r * F(Up(f[1], f[2])), 1000 + r)
ArcOk(c, o) ==
  /\ Len(o.arc) = c.n
  /\ \A i \in 1..c.n : LET f == Ang(c, i - 1) IN Round(o.arc[i][1], c.z[1], c.r, Cos, f) /\ Round(o.arc[i][2], c.z[2], c.r, Sin, f)
\* the involute of a circle: center + r * (cos w + w sin w, sin w - w cos w)
InvolOk(c, o) ==
  LET rad(k) == (k * 174533) \div 1000           \* k degrees in ten-thousandths
      X(k) == Cos(k) \div 100 + (rad(k) * (Sin(k) \div 100)) \div 10000
      Y(k) == Sin(k) \div 100 - (rad(k) * (Cos(k) \div 100)) \div 10000
  IN /\ Len(o.inv) = c.n
     /\ \A i \in 1..c.n : LET f == Ang(c, i - 1) IN f[1] % f[2] = 0 =>
           LET k == f[1] \div f[2] IN
           /\ Abs(o.inv[i][1] - (1000 * c.z[1] + (c.r * X(k)) \div 10)) <= 2 + c.r * (2 + Abs(k) \div 200)
           /\ Abs(o.inv[i][2] - (1000 * c.z[2] + (c.r * Y(k)) \div 10)) <= 2 + c.r * (2 + Abs(k) \div 200)
\* ellipses: equal steps of the parameter from the end of the first half axis, over a half or a full turn
EllipseOk(c, o) ==
  /\ Len(o.ell) = c.n
  /\ \E T \in {180, 360} : \A i \in 1..c.n :
       LET f == IF c.n < 2 THEN <<0, 1>> ELSE <<(i - 1) * T, c.n - 1>> IN
       Round(o.ell[i][1], c.z[1], c.r, Cos, f) /\ Round(o.ell[i][2], c.z[2], c.s, Sin, f)
\* rectangles around a center: the four corners one after another, from the lower left counterclockwise
RectOk(c, o) == o.rect = [i \in 1..4 |-> <<1000 * c.z[1] + (IF i \in {2, 3} THEN 500 ELSE -500) * c.r,
                                           1000 * c.z[2] + (IF i \in {3, 4} THEN 500 ELSE -500) * c.s>>]
Conforms == l = 1 => LET c == Traces[t]  o == c.obs IN
  CASE c.kind = "path" -> PathOk(c, o)
    [] c.kind = "bezier" -> BezierOk(c, o)
    [] c.kind = "even" -> EvenOk(c, o)
    [] c.kind = "round" -> ArcOk(c, o) /\ InvolOk(c, o) /\ EllipseOk(c, o) /\ RectOk(c, o)
=============================================================================
