------------------------------- MODULE CloudMC -------------------------------
(* All small point clouds (C24); a quantised axis as a machine: the unit index *)
(* of a coordinate grows while the next unit still is not beyond it.  Inv: the *)
(* restored coordinate never leaves the box and is less than a unit below.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Size, NP
VARIABLES P, u, done
Pos == {<<x, y, z>> : x \in 0..Size, y \in 0..Size, z \in 0..Size}
Lo == LET S == {P[i][1] : i \in 1..NP} IN CHOOSE x \in S : \A y \in S : x <= y
Hi == LET S == {P[i][1] : i \in 1..NP} IN CHOOSE x \in S : \A y \in S : x >= y
M == 5   \* units of the model
Init == P \in [1..NP -> Pos] /\ u = [i \in 1..NP |-> 0] /\ done = FALSE
Up == \E i \in 1..NP : /\ Hi > Lo /\ (u[i] + 1) * (Hi - Lo) <= M * (P[i][1] - Lo)
                       /\ u' = [u EXCEPT ![i] = @ + 1] /\ UNCHANGED <<P, done>>
End == /\ ~done /\ \A i \in 1..NP : ~(Hi > Lo /\ (u[i] + 1) * (Hi - Lo) <= M * (P[i][1] - Lo))
       /\ done' = TRUE /\ UNCHANGED <<P, u>>
Next == Up \/ End
Inv == \A i \in 1..NP : /\ u[i] \in 0..M
                        /\ done => /\ u[i] * (Hi - Lo) <= M * (P[i][1] - Lo)
                                   /\ Hi > Lo => M * (P[i][1] - Lo) < (u[i] + 1) * (Hi - Lo)
Dump == done => PrintT("@@" \o ToJson([fam |-> "comp", P |-> P, t |-> "u8"]))
=============================================================================
