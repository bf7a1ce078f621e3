---------------------------- MODULE BoxTreeTrace ----------------------------
(* C18, C19, C20: what collision trees and the grid cluster answer.            *)
EXTENDS Bodies, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
ToSet(s) == {s[i] : i \in 1..Len(s)}
Ids(c) == 1..Len(c.E)
\* an element's box as the library computed it when it is turned (its enclosing itself is C23), in 1/10
Enclosing(b) == IF Turned(b) THEN
    [lo |-> <<Bot({p[1] : p \in Plan(b)}), Bot({p[2] : p \in Plan(b)}), 10 * b.lo[3]>>,
     hi |-> <<Top({p[1] : p \in Plan(b)}), Top({p[2] : p \in Plan(b)}), 10 * b.hi[3]>>]
  ELSE [lo |-> [d \in 1..Len(b.lo) |-> 10 * b.lo[d]], hi |-> [d \in 1..Len(b.lo) |-> 10 * b.hi[d]]]
SomeIn(c, P(_)) == \E i \in Ids(c) : P(c.E[i])
Plain(c) == \A i \in Ids(c) : ~Turned(c.E[i])
Tree(c, n) ==
  LET o == c.obs IN
  /\ \A i \in 1..Len(c.Q) :
       LET hit == {k \in Ids(c) : Overlap(n, Enclosing(c.E[k]), Enclosing(c.Q[i]))}
           sure == {k \in Ids(c) : Apart(n, Enclosing(c.E[k]), Enclosing(c.Q[i]))} IN
       IF Plain(c) /\ ~Turned(c.Q[i])
       THEN ToSet(o.coll[i][1]) = hit /\ ToSet(o.coll[i][2]) = hit
       ELSE \A j \in 1..2 : hit \subseteq ToSet(o.coll[i][j])
  /\ \A i \in 1..Len(c.X), d \in 1..n :
       LET hit == {k \in Ids(c) : Crosses(Enclosing(c.E[k]), d, 10 * c.X[i])} IN
       IF Plain(c) THEN ToSet(o.cross[i][d]) = hit ELSE hit \subseteq ToSet(o.cross[i][d])
  /\ \A i \in 1..Len(o.any) : o.any[i] = (i - 1 \in Ids(c))
\* touching bodies may or may not collide, except that boxes that only touch do not
Alike(b, q) == b.kind = "" /\ q.kind = ""
Must(b, q) == IF Alike(b, q) THEN Overlap(3, b, q) ELSE BodiesOverlap(b, q)
MustNot(b, q) == IF Alike(b, q) THEN ~Overlap(3, b, q) ELSE BodiesApart(b, q)
Colliders(c) ==
  LET o == c.obs IN
  \A i \in 1..Len(c.Q), j \in 1..4 :
    /\ (\E k \in Ids(c) : Must(c.E[k], c.Q[i])) => o.anyc[i][1][j]
    /\ (\A k \in Ids(c) : MustNot(c.E[k], c.Q[i])) => ~o.anyc[i][1][j]
    /\ (Plain(c) /\ ~Turned(c.Q[i])) => (o.anyc[i][2][j] <=> \E k \in Ids(c) : Overlap(3, c.E[k], c.Q[i]))
    /\ o.anyc[i][2][j] = o.anyc[i][2][1]
Lines(c) ==
  \A i \in 1..Len(c.L) :
    LET s == ToSet(c.obs.lines[i]) IN
    /\ \A k \in Ids(c) : (~Turned(c.E[k]) /\ RayThrough(c.L[i], c.E[k])) => k \in s
    /\ \A k \in s : k \in Ids(c) /\ (~Turned(c.E[k]) => ~LineMisses(c.L[i], c.E[k]))
\* positions of the grid cluster are in quarters
Cluster(c) ==
  LET o == c.obs IN
  IF Len(c.E) = 0 THEN o.built = "err"
  ELSE /\ o.built = "ok"
       /\ \A i \in 1..Len(c.Q) :
            /\ ToSet(o.c[i]) \subseteq Ids(c)
            /\ {k \in Ids(c) : \A d \in 1..2 : 4 * c.E[k].lo[d] <= c.Q[i][d] /\ c.Q[i][d] <= 4 * c.E[k].hi[d]} \subseteq ToSet(o.c[i])
Conforms == l = 1 => LET c == Traces[t] IN
  CASE c.fam = "tree2" -> Tree(c, 2)
    [] c.fam = "tree3" -> Tree(c, 3) /\ Colliders(c) /\ Lines(c)
    [] c.fam = "cluster" -> Cluster(c)
=============================================================================
