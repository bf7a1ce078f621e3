------------------------------ MODULE MeshOpsMC ------------------------------
(* Builds input meshes vertex by vertex (with any pattern of coinciding       *)
(* positions) and face by face, and prints them for execution.                *)
EXTENDS MeshOps
CONSTANTS Algo, NPos, NV, MaxF
VARIABLES pat, F, done
vars == <<pat, F, done>>
\* pairwise distinct positions, spanning a volume
Pos == <<<<0, 0, 0>>, <<8, 2, 4>>, <<2, 8, 6>>, <<6, 4, 8>>, <<4, 6, 2>>>>
V == [i \in 1..Len(pat) |-> Pos[pat[i]]]
Used == {pat[i] : i \in 1..Len(pat)}
Faces == {t \in {<<a, b, c>> : a \in 0..(Len(pat) - 1), b \in 0..(Len(pat) - 1), c \in 0..(Len(pat) - 1)} : Distinct3(t)}
Init == pat = <<>> /\ F = <<>> /\ done = FALSE
AddVertex == /\ ~done /\ F = <<>> /\ Len(pat) < NV
             /\ \E k \in 1..NPos : (k \in Used \/ k = Cardinality(Used) + 1) /\ pat' = Append(pat, k)
             /\ UNCHANGED <<F, done>>
AddFace == /\ ~done /\ Len(pat) = NV /\ Len(F) < MaxF
           /\ \E t \in Faces : (F = <<>> => t[1] < t[2] /\ t[1] < t[3]) /\ F' = Append(F, t)
           /\ UNCHANGED <<pat, done>>
Finish == ~done /\ Len(pat) = NV /\ done' = TRUE /\ UNCHANGED <<pat, F>>
Next == AddVertex \/ AddFace \/ Finish
\* one way to pick the survivors (the first appearance of each): it is what Surviving asks for, idempotent, never degenerate
RECURSIVE Survivors(_, _)
Survivors(K, acc) ==
  IF K = <<>> THEN acc
  ELSE LET f == K[1] IN
       Survivors(SubSeq(K, 2, Len(K)),
                 IF Distinct3(f) /\ ~\E i \in 1..Len(acc) : SameFace(acc[i], f) THEN Append(acc, f) ELSE acc)
C == [i \in 1..Len(F) |-> Corners(V, F[i])]
Inv == LET S == Survivors(C, <<>>) IN
       /\ Survivors(S, <<>>) = S
       /\ Surviving(C, S)
       /\ \A k \in 1..Len(S) : ~Surviving(C, SubSeq(S, 1, k - 1))
       /\ \A i \in 1..Len(C) : Distinct3(C[i]) <=> \E j \in 1..Len(S) : SameFace(S[j], C[i])
       /\ \A i \in 1..Len(F) : Normal(V, Flip(F[i])) = [d \in 1..3 |-> -Normal(V, F[i])[d]]
Dump == done => PrintT("@@" \o ToJson([fam |-> Algo, V |-> V, F |-> F, size |-> 3, base |-> F]))
=============================================================================
