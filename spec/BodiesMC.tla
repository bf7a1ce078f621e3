------------------------------ MODULE BodiesMC ------------------------------
(* All pairs of small upright and turned bodies; Inv: the two ways to decide   *)
(* (extents, separating axes) agree for upright bodies, and being apart is the *)
(* opposite of overlapping up to touching.                                     *)
EXTENDS Bodies, Json
CONSTANTS Top1, Rest
VARIABLES a, b, done
Iv == {<<x, y>> \in (0..Top1) \X (0..Top1) : x < y}
Pool(k) == {[lo |-> <<x[1], y[1], z[1]>>, hi |-> <<x[2], y[2], z[2]>>, kind |-> kk] : x \in Iv, y \in Iv, z \in {<<0, 1>>, <<1, 2>>, <<0, 2>>}, kk \in k}
Hash(c) == c.lo[1] + 3 * c.hi[1] + 7 * c.lo[2] + 11 * c.hi[2] + 13 * c.lo[3] + 17 * c.hi[3] + (IF c.kind = "r345" THEN 1 ELSE IF c.kind = "box" THEN 2 ELSE 0)
Init == /\ a \in Pool({"box", "r345"})
        /\ b \in Pool({"aabb", "box", "rot", "r345"})
        /\ (Hash(a) + 5 * Hash(b)) % Rest = 0
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
Inv == /\ BodiesOverlap(a, b) = BodiesOverlap(b, a)
       /\ BodiesApart(a, b) = BodiesApart(b, a)
       /\ ~(BodiesOverlap(a, b) /\ BodiesApart(a, b))
       /\ (~Turned(a) /\ ~Turned(b)) => BodiesOverlap(a, b) = Overlap(3, a, b) /\ BodiesApart(a, b) = Apart(3, a, b)
       /\ (Turned(a) /\ Turned(b)) => BodiesOverlap(a, a) /\ BodiesOverlap(b, b)
Dump == done => PrintT("@@" \o ToJson([fam |-> "sat", A |-> <<a>>, B |-> <<b>>]))
=============================================================================
