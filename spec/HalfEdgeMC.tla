----------------------------- MODULE HalfEdgeMC -----------------------------
(* Builds every mesh within the bounds face by face and checks that the       *)
(* definitions of HalfEdge have the properties a user relies on.              *)
EXTENDS HalfEdge
CONSTANTS NV, MaxF, OnlyManifold, Ics
VARIABLES F, nv, ic, done
vars == <<F, nv, ic, done>>
Tri == {<<a, b, c>> : a \in 0..(nv - 1), b \in 0..(nv - 1), c \in 0..(nv - 1)}
Faces == {t \in Tri : t[1] # t[2] /\ t[1] # t[3] /\ t[2] # t[3]}
\* symmetric start (rotation of the first corner) cuts the space by three
Canon(t) == t[1] < t[2] /\ t[1] < t[3]
Init == F = <<>> /\ nv \in 0..NV /\ ic \in Ics /\ done = FALSE
AddFace == /\ ~done /\ Len(F) < MaxF
           /\ \E t \in Faces : /\ (Len(F) < MaxF - 1 => Canon(t))
                               /\ (OnlyManifold => Manifold(Append(F, t)))
                               /\ F' = Append(F, t)
           /\ UNCHANGED <<nv, ic, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<F, nv, ic>>
Next == AddFace \/ Finish
\* next/prev are inverse and cycle with period three inside a face; a reversed edge is reversed again by its own reverse
Inv == /\ \A e \in E(F) : /\ PrevE(NextE(e)) = e /\ NextE(NextE(NextE(e))) = e /\ FaceOf(NextE(e)) = FaceOf(e)
                          /\ \A x \in Reverse(F, e) : e \in Reverse(F, x)
                          /\ Manifold(F) => Cardinality(Reverse(F, e)) <= 1
       /\ \A v \in 0..(nv - 1) : Orig(F, v) \cap Ending(F, v) = {} /\ Cardinality(Orig(F, v)) = Cardinality(Ending(F, v))
       /\ E(F) = UNION {Orig(F, v) : v \in 0..(nv - 1)}
Dump == done => PrintT("@@" \o ToJson([fam |-> "he", ic |-> ic, nv |-> nv, F |-> F]))
=============================================================================
