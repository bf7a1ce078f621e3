------------------------------ MODULE AlgoTrace ------------------------------
(* C21, C22, C24: hulls, simplified lines and compressed clouds.               *)
EXTENDS Hull, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
\* a point k lies off the line through a and b by D(k) / sqrt(Len2); if a = b it is the distance to that point
Len2(P, a, b) == Sq(P[a][1] - P[b][1]) + Sq(P[a][2] - P[b][2])
Off2(P, a, b, k) == IF Len2(P, a, b) = 0 THEN Len2(P, a, k) ELSE Sq(Turn(P[a], P[b], P[k]))
Unit2(P, a, b) == IF Len2(P, a, b) = 0 THEN 1 ELSE Len2(P, a, b)
Farther(P, a, b, k, e) == Off2(P, a, b, k) > e * e * Unit2(P, a, b)
NotNearer(P, a, b, k, e) == Off2(P, a, b, k) >= e * e * Unit2(P, a, b)
\* the recursive definition: a section keeps only its ends if nothing is farther off than e, otherwise it is split at
\* a point that is farthest off (points exactly e off may go either way)
RECURSIVE Simplified(_, _, _, _, _)
Simplified(P, e, a, b, S) ==
  LET mid == (a + 1)..(b - 1) IN
  \/ S \cap mid = {} /\ \A k \in mid : ~Farther(P, a, b, k, e)
  \/ \E m \in S \cap mid :
       /\ NotNearer(P, a, b, m, e)
       /\ \A k \in mid : Off2(P, a, b, k) <= Off2(P, a, b, m)
       /\ Simplified(P, e, a, m, S) /\ Simplified(P, e, m, b, S)
Within(P, e, r) == \A j \in 1..Len(r) - 1 : \A k \in (r[j] + 1)..(r[j + 1] - 1) : ~Farther(P, r[j], r[j + 1], k, e)
IsSimplified(P, e, r) ==
  IF Len(P) = 0 THEN r = <<>>
  ELSE /\ Len(r) >= 1 /\ r[1] = 1 /\ r[Len(r)] = Len(P)
       /\ \A j \in 1..Len(r) - 1 : r[j] < r[j + 1]
       /\ Within(P, e, r)
       /\ Simplified(P, e, 1, Len(P), {r[j] : j \in 1..Len(r)})
Ext(P, d, up) == CHOOSE x \in {P[i][d] : i \in 1..Len(P)} : \A i \in 1..Len(P) : IF up THEN x >= P[i][d] ELSE x <= P[i][d]
Steps(ty) == CASE ty = "u8" -> 255 [] ty = "u16" -> 65535 [] OTHER -> 2000000000
Restored(c, o) ==
  IF Len(c.P) < 2 \/ \E d \in 1..3 : Ext(c.P, d, FALSE) = Ext(c.P, d, TRUE) THEN o.r = "err"
  ELSE LET lo == TLCEval([d \in 1..3 |-> Ext(c.P, d, FALSE)])
           hi == TLCEval([d \in 1..3 |-> Ext(c.P, d, TRUE)]) IN
       /\ o.r = "ok" /\ Len(o.d) = Len(c.P)
       /\ \A i \in 1..Len(c.P), d \in 1..3 :
            /\ 1000 * lo[d] <= o.d[i][d] /\ o.d[i][d] <= 1000 * hi[d]
            /\ Abs(o.d[i][d] - 1000 * c.P[i][d]) <= ((hi[d] - lo[d]) * 1000) \div Steps(c.t) + 1
Conforms == l = 1 => LET c == Traces[t]
                o == c.obs IN
  CASE c.fam = "hull" -> \A i \in 1..3 : IsHull(c.P, o[i])
    [] c.fam = "dp" -> IsSimplified(c.P, c.eps, o)
    [] c.fam = "comp" -> Restored(c, o)
=============================================================================
