-------------------------------- MODULE Hull --------------------------------
(* C21: r is the smallest convex polygon around the points of P.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dotp(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
At(r, i) == r[1 + ((i - 1) % Len(r))]
IsHullCcw(P, r) ==
  /\ \A i \in 1..Len(r) : Turn(At(r, i), At(r, i + 1), At(r, i + 2)) > 0
  /\ \A i \in 1..Len(r), k \in 1..Len(P) : Turn(At(r, i), At(r, i + 1), P[k]) >= 0
IsHull(P, r) ==
  /\ \A i \in 1..Len(r) : \E k \in 1..Len(P) : P[k] = r[i]
  /\ \A i, j \in 1..Len(r) : i # j => r[i] # r[j]
  /\ CASE Len(r) = 0 -> Len(P) = 0
       [] Len(r) = 1 -> \A k \in 1..Len(P) : P[k] = r[1]
       [] Len(r) = 2 -> \A k \in 1..Len(P) : /\ Turn(r[1], r[2], P[k]) = 0
                                             /\ Dotp(P[k], r[1], r[2]) <= 0
       [] OTHER -> IsHullCcw(P, r) \/ IsHullCcw(P, [i \in 1..Len(r) |-> r[Len(r) + 1 - i]])
=============================================================================
