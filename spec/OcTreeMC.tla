------------------------------ MODULE OcTreeMC ------------------------------
(* The design: a cell is split by comparing every point with the cell centre;  *)
(* the machine splits one cell at a time.  Inv: the cells together always hold *)
(* every point exactly once and every point lies in its (closed) cell.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Size, Coords, NP, Rest
VARIABLES P, cells, leaves, done
vars == <<P, cells, leaves, done>>
Key(p) == p[1] * 100 + p[2] * 10 + p[3]
Pos == {<<x, y, z>> : x \in Coords, y \in Coords, z \in Coords}
Hull == {<<0, 0, 0>>, <<Size, Size, Size>>}
K == 64
Init == /\ \E S \in kSubset(NP, Pos \ Hull) :
             /\ P = S \cup Hull
        /\ (LET RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Key(x) + Sum(S \ {x}) IN Sum(P)) % Rest = 0
        /\ cells = {[lo |-> <<0, 0, 0>>, hi |-> <<Size * K, Size * K, Size * K>>, s |-> P]}
        /\ leaves = {}
        /\ done = FALSE
Halves(c) == {[lo |-> [d \in 1..3 |-> IF d \in u THEN (c.lo[d] + c.hi[d]) \div 2 ELSE c.lo[d]],
               hi |-> [d \in 1..3 |-> IF d \in u THEN c.hi[d] ELSE (c.lo[d] + c.hi[d]) \div 2],
               s |-> {p \in c.s : \A d \in 1..3 : (2 * p[d] * K >= c.lo[d] + c.hi[d]) <=> d \in u}] : u \in SUBSET (1..3)}
Split == /\ cells # {}
         /\ LET c == CHOOSE c \in cells : TRUE IN
              IF Cardinality(c.s) = 1 THEN leaves' = leaves \cup c.s /\ cells' = cells \ {c}
              ELSE cells' = (cells \ {c}) \cup {h \in Halves(c) : h.s # {}} /\ leaves' = leaves
         /\ UNCHANGED <<P, done>>
End == cells = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<P, cells, leaves>>
Next == Split \/ End
Inv == /\ leaves \cup UNION {c.s : c \in cells} = P
       /\ \A c \in cells : c.s \cap leaves = {} /\ (\A e \in cells : e = c \/ e.s \cap c.s = {})
       /\ \A c \in cells : \A p \in c.s : \A d \in 1..3 : c.lo[d] <= p[d] * K /\ p[d] * K <= c.hi[d]
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq2(S \ {x})
Dump == done => PrintT("@@" \o ToJson([fam |-> "oct", P |-> Seq2(P), U |-> <<>>, S |-> <<>>, scale |-> 1, D |-> <<0, 1, 2>>, rebuild |-> 0]))
=============================================================================
