----------------------------- MODULE KdSearchMC -----------------------------
(* The search as a machine: a sub tree is a set of points still to be split;   *)
(* splitting picks any median along the alternating dimension (x, y), the      *)
(* nearer half is visited first and the other half only if the splitting plane *)
(* is not farther than the worst of the k best points found so far.  Inv shows *)
(* that every such search ends with a right answer, for every median choice.   *)
EXTENDS KdTree, Json
CONSTANTS Size, NP, KMax, Rest
VARIABLES P, q, k, r, work, best, done
vars == <<P, q, k, r, work, best, done>>
Pos == {<<x, y, z>> : x \in 0..(Size - 1), y \in 0..(Size - 1), z \in {0, 1}}
Key(p) == p[1] * 100 + p[2] * 10 + p[3]
\* point lists up to order (the order only decides among equal medians, which is free here)
Lists == {s \in [1..NP -> Pos] : \A i \in 1..NP - 1 : Key(s[i]) <= Key(s[i + 1])}
Init == /\ P \in {s \in Lists : Key(s[1]) % 10 = 0}
        /\ q \in {<<x, y, 0>> : x \in -1..Size, y \in 0..Size - 1}
        /\ k \in 1..KMax
        /\ r \in {1, 2}
        /\ (Key(P[1]) + Key(P[NP]) + Key(q) + k + r) % Rest = 0
        /\ work = <<[s |-> 1..NP, dim |-> 1, bound |-> 0]>>
        /\ best = <<>>
        /\ done = FALSE
Insert(b, p) == LET n == Cardinality({i \in 1..Len(b) : D2(b[i], q) <= D2(p, q)})
                    s == SubSeq(b, 1, n) \o <<p>> \o SubSeq(b, n + 1, Len(b)) IN
                IF Len(s) > k THEN SubSeq(s, 1, k) ELSE s
Step ==
  LET w == work[1]  rest == SubSeq(work, 2, Len(work)) IN
  /\ work # <<>>
  /\ UNCHANGED <<P, q, k, r, done>>
  /\ IF w.s = {} \/ (Len(best) = k /\ w.bound > D2(best[k], q))
     THEN work' = rest /\ UNCHANGED best
     ELSE \E m \in w.s : \E L \in SUBSET (w.s \ {m}) :
            /\ Cardinality(L) = Cardinality(w.s) \div 2
            /\ \A i \in L : P[i][w.dim] <= P[m][w.dim]
            /\ \A i \in w.s \ (L \cup {m}) : P[i][w.dim] >= P[m][w.dim]
            /\ LET R == w.s \ (L \cup {m})
                   far == Sq(q[w.dim] - P[m][w.dim])
                   nd == 3 - w.dim
                   a == [s |-> IF q[w.dim] < P[m][w.dim] THEN L ELSE R, dim |-> nd, bound |-> 0]
                   b == [s |-> IF q[w.dim] < P[m][w.dim] THEN R ELSE L, dim |-> nd, bound |-> far] IN
               /\ best' = Insert(best, P[m])
               /\ work' = <<a, b>> \o rest
End == work = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<P, q, k, r, work, best>>
Next == Step \/ End
Inv == work = <<>> => IsNearest(P, q, k, best)
Case == [fam |-> "kd", P |-> P, K |-> <<[q |-> q, k |-> k], [q |-> q, k |-> NP]>>, S |-> <<[q |-> q, r |-> r]>>,
         B |-> <<[q |-> q, h |-> <<r, k, 1>>]>>, pre |-> k - 1, rebuild |-> 0]
Dump == done => PrintT("@@" \o ToJson(Case))
=============================================================================
