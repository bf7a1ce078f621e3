------------------------------- MODULE HullMC -------------------------------
(* Monotone chain as a machine over the points in lexicographic order; Inv:    *)
(* when both chains are complete they form the convex hull.                    *)
EXTENDS Hull, Json
CONSTANTS Size, NP, Rest
VARIABLES P, i, chain, phase, low, done
vars == <<P, i, chain, phase, low, done>>
Pos == {<<x, y>> : x \in 0..Size, y \in 0..Size}
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE (2 * n + 1) * (s[n][1] * 5 + s[n][2]) + Sum(s, n - 1)
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Lex(x, y) IN <<m>> \o Sorted(S \ {m})
S0 == Sorted({P[k] : k \in 1..Len(P)})
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Cur == IF phase = "lower" THEN S0 ELSE Rev(S0)
Init == /\ P \in [1..NP -> Pos] /\ Sum(P, NP) % Rest = 0
        /\ i = 1 /\ chain = <<>> /\ phase = "lower" /\ low = <<>> /\ done = FALSE
Pop == /\ phase # "end" /\ i <= Len(Cur) /\ Len(chain) >= 2 /\ Turn(chain[Len(chain) - 1], chain[Len(chain)], Cur[i]) <= 0
       /\ chain' = SubSeq(chain, 1, Len(chain) - 1) /\ UNCHANGED <<P, i, phase, low, done>>
Push == /\ phase # "end" /\ i <= Len(Cur)
        /\ ~(Len(chain) >= 2 /\ Turn(chain[Len(chain) - 1], chain[Len(chain)], Cur[i]) <= 0)
        /\ chain' = Append(chain, Cur[i]) /\ i' = i + 1 /\ UNCHANGED <<P, phase, low, done>>
Cut(s) == SubSeq(s, 1, Len(s) - 1)
Turn2 == /\ phase = "lower" /\ i > Len(Cur) /\ phase' = "upper" /\ i' = 1 /\ low' = Cut(chain) /\ chain' = <<>> /\ UNCHANGED <<P, done>>
End == /\ phase = "upper" /\ i > Len(Cur) /\ phase' = "end" /\ done' = TRUE
       /\ chain' = (IF Len(S0) = 1 THEN S0 ELSE low \o Cut(chain)) /\ UNCHANGED <<P, i, low>>
Next == Pop \/ Push \/ Turn2 \/ End
Inv == phase = "end" => IsHull(P, chain)
Dump == done => PrintT("@@" \o ToJson([fam |-> "hull", P |-> P, scale |-> 1]))
=============================================================================
