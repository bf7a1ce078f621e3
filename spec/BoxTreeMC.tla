------------------------------ MODULE BoxTreeMC ------------------------------
(* The tree as a machine: a node holds element ids; it is a leaf when it holds *)
(* at most Bucket elements, is deep enough or cannot be told apart; otherwise  *)
(* the elements reaching below the middle of their common box go left, those   *)
(* reaching to it or above go right (an element may go both ways).  A query    *)
(* visits only nodes whose box it overlaps.  Inv: whatever is found is right,  *)
(* and at the end nothing is missing.                                          *)
EXTENDS Bodies, Json
CONSTANTS Dim, NE, Top1, Zs, Rest
VARIABLES E, q, cfg, work, found, done
vars == <<E, q, cfg, work, found, done>>
Iv == {<<a, b>> \in (0..Top1) \X (0..Top1) : a < b}
Zi == IF Dim = 2 THEN {<<0, 0>>} ELSE {<<0, z>> : z \in Zs} \cup {<<1, 3>>}
Pool == {[lo |-> <<x[1], y[1], z[1]>>, hi |-> <<x[2], y[2], z[2]>>, kind |-> ""] : x \in Iv, y \in Iv, z \in Zi}
Hash(b) == b.lo[1] + 3 * b.hi[1] + 7 * b.lo[2] + 11 * b.hi[2] + 13 * b.lo[3] + 17 * b.hi[3]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE n * Hash(s[n]) + Sum(s, n - 1)
Init == /\ E \in [1..NE -> Pool]
        /\ q \in Pool
        /\ (Sum(E, NE) + 5 * Hash(q)) % Rest = 0
        /\ cfg \in {<<0, 1>>, <<2, 1>>, <<4, 2>>}
        /\ work = <<[s |-> 1..NE, depth |-> 0]>>
        /\ found = {}
        /\ done = FALSE
Box(S) == [lo |-> [d \in 1..3 |-> Bot({E[i].lo[d] : i \in S})], hi |-> [d \in 1..3 |-> Top({E[i].hi[d] : i \in S})]]
Dir(depth) == IF Dim = 2 THEN 2 - (depth % 2) ELSE 1 + (depth % 3)
Left(S, d) == {i \in S : 2 * E[i].lo[d] < Box(S).lo[d] + Box(S).hi[d]}
Right(S, d) == {i \in S : 2 * E[i].hi[d] >= Box(S).lo[d] + Box(S).hi[d]}
Step ==
  LET w == work[1]  rest == SubSeq(work, 2, Len(work)) IN
  /\ work # <<>> /\ UNCHANGED <<E, q, cfg, done>>
  /\ IF w.s = {} \/ ~Overlap(Dim, Box(w.s), q) THEN work' = rest /\ UNCHANGED found
     ELSE LET d == Dir(w.depth)  L == Left(w.s, d)  R == Right(w.s, d) IN
          IF Cardinality(w.s) = 1 \/ w.depth >= cfg[1] \/ Cardinality(w.s) <= cfg[2] \/ (L = w.s /\ R = w.s)
          THEN found' = found \cup {i \in w.s : Overlap(Dim, E[i], q)} /\ work' = rest
          ELSE work' = <<[s |-> L, depth |-> w.depth + 1], [s |-> R, depth |-> w.depth + 1]>> \o rest /\ UNCHANGED found
End == work = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<E, q, cfg, work, found>>
Next == Step \/ End
Inv == /\ \A i \in found : Overlap(Dim, E[i], q)
       /\ work = <<>> => found = {i \in 1..NE : Overlap(Dim, E[i], q)}
Case == [fam |-> IF Dim = 2 THEN "tree2" ELSE "tree3", E |-> E, depth |-> cfg[1], bucket |-> cfg[2], Q |-> <<q>>,
         X |-> <<0, 1, 2>>, L |-> <<[a |-> <<-1, 1, 1>>, d |-> <<1, 0, 0>>], [a |-> <<3, -1, 2>>, d |-> <<-2, 3, -1>>]>>]
Dump == done => PrintT("@@" \o ToJson(Case))
=============================================================================
