----------------------------- MODULE PolylineMC -----------------------------
(* All short polylines on a small grid (C22), with the recursive splitting as  *)
(* a machine: pending sections, kept indices.  Inv: kept points always hold    *)
(* both ends, and at the end everything left out is within the tolerance.      *)
EXTENDS Hull, Json
CONSTANTS Size, NP, Eps, Rest
VARIABLES P, e, todo, kept, done
vars == <<P, e, todo, kept, done>>
Pos == {<<x, y>> : x \in 0..Size, y \in 0..Size}
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE (2 * n + 1) * (s[n][1] * 5 + s[n][2]) + Sum(s, n - 1)
Sq(x) == x * x
Len2(a, b) == Sq(P[a][1] - P[b][1]) + Sq(P[a][2] - P[b][2])
Off2(a, b, k) == IF Len2(a, b) = 0 THEN Len2(a, k) ELSE Sq(Turn(P[a], P[b], P[k]))
Unit2(a, b) == IF Len2(a, b) = 0 THEN 1 ELSE Len2(a, b)
Init == /\ P \in [1..NP -> Pos] /\ e \in Eps /\ (Sum(P, NP) + e) % Rest = 0
        /\ todo = {<<1, NP>>} /\ kept = {1, NP} /\ done = FALSE
Step == /\ todo # {}
        /\ \E s \in todo :
             LET a == s[1]  b == s[2]  far == {k \in (a + 1)..(b - 1) : Off2(a, b, k) > e * e * Unit2(a, b)} IN
             IF far = {} THEN todo' = todo \ {s} /\ UNCHANGED kept
             ELSE LET m == CHOOSE m \in far : \A k \in far : Off2(a, b, k) < Off2(a, b, m) \/ (Off2(a, b, k) = Off2(a, b, m) /\ k >= m) IN
                  kept' = kept \cup {m} /\ todo' = (todo \ {s}) \cup {<<a, m>>, <<m, b>>}
        /\ UNCHANGED <<P, e, done>>
End == todo = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<P, e, todo, kept>>
Next == Step \/ End
Inv == /\ {1, NP} \subseteq kept
       /\ todo = {} => \A k \in 1..NP \ kept :
            \E a, b \in kept : /\ a < k /\ k < b /\ \A m \in kept : ~(a < m /\ m < b)
                               /\ Off2(a, b, k) <= e * e * Unit2(a, b)
Dump == done => PrintT("@@" \o ToJson([fam |-> "dp", P |-> P, eps |-> e]))
=============================================================================
