------------------------------- MODULE KdTree -------------------------------
(* C15, C16: what a spatial search over the points P answers (observable level). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Within(s, t) == \A i \in 1..Len(s) : Count(s, s[i]) <= Count(t, s[i])
Lower(x, y) == IF x < y THEN x ELSE y
\* r is an answer to "the k nearest points of P to q, nearest first"
IsNearest(P, q, k, r) ==
  /\ Len(r) = Lower(k, Len(P))
  /\ Within(r, P)
  /\ \A i \in 1..Len(r) - 1 : D2(r[i], q) <= D2(r[i + 1], q)
  \* no point left out is nearer than the last one taken
  /\ Len(r) > 0 => LET m == D2(r[Len(r)], q) IN
       Cardinality({i \in 1..Len(P) : D2(P[i], q) < m}) = Cardinality({i \in 1..Len(r) : D2(r[i], q) < m})
Abs(x) == IF x < 0 THEN -x ELSE x
InSphere(P, q, r) == SelectSeq(P, LAMBDA p : D2(p, q) <= r * r)
InBox(P, q, h) == SelectSeq(P, LAMBDA p : \A d \in 1..3 : Abs(p[d] - q[d]) <= h[d])
=============================================================================
