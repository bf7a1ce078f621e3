----------------------------- MODULE OcTreeTrace -----------------------------
(* C17: a built octree holds every distinct point exactly once; collected down *)
(* to depth m it gives one point per cell of level m + 2 that holds points     *)
(* (cells: repeated halving of the bounding box in x, y, z), a centre inside   *)
(* the box around that cell's points.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Idx(c) == 1..Len(c.P)
U(c, i) == IF Len(c.U) = 0 THEN <<0, 0, 0>> ELSE c.U[i]
\* points may be shrunk by a power of two each, so deep trees can be described by small numbers
Shrink(c, i) == IF Len(c.S) = 0 THEN 0 ELSE c.S[i]
\* odd coordinates only: a shrunk number is identified by its odd part and its power
Pt(c, i) == <<c.P[i], U(c, i), Shrink(c, i)>>
Volume(c) == \A d \in 1..3 : \E i, j \in Idx(c) : Pt(c, i)[1][d] # Pt(c, j)[1][d] \/ Pt(c, i)[2][d] # Pt(c, j)[2][d]
                                      \/ (Shrink(c, i) # Shrink(c, j) /\ c.P[i][d] # 0)
\* first input index of every distinct point
Firsts(c) == LET p == TLCEval([i \in Idx(c) |-> Pt(c, i)]) IN {i \in Idx(c) : \A j \in 1..i - 1 : p[j] # p[i]}
Once(c, s) == Len(s) = Cardinality(Firsts(c)) /\ {s[i] : i \in 1..Len(s)} = Firsts(c)
Fine == 64
\* cells of a level, per dimension numbered 0 .. 2^level-1 from lo to hi
Pow(n) == 2 ^ n
CellOf(v, lo, hi, lev) == ((v - lo) * Pow(lev)) \div (hi - lo)
OnBorder(v, lo, hi, lev) == v # hi /\ v # lo /\ ((v - lo) * Pow(lev)) % (hi - lo) = 0
Clamp(x, lev) == IF x >= Pow(lev) THEN Pow(lev) - 1 ELSE x
Inside(b, p) == \A d \in 1..3 : b[1][d] * Fine <= p[d] + 1 /\ b[2][d] * Fine >= p[d] - 1
Least(S) == FoldSet(LAMBDA x, y : IF x < y THEN x ELSE y, 2147483647, S)
Greatest(S) == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, -2147483647, S)
\* smallest box around the points with the numbers S
Around(c, S) == <<[d \in 1..3 |-> Least({c.P[i][d] : i \in S})], [d \in 1..3 |-> Greatest({c.P[i][d] : i \in S})]>>
CutOk(c, m, s) ==
  LET lev == m + 2
      hull == TLCEval(Around(c, Idx(c)))
      generic == \A i \in Idx(c), d \in 1..3 : ~OnBorder(c.P[i][d], hull[1][d], hull[2][d], lev)
      cell == TLCEval([i \in Idx(c) |-> [d \in 1..3 |-> Clamp(CellOf(c.P[i][d], hull[1][d], hull[2][d], lev), lev)]])
      \* a cell is named by the first point in it
      leads == TLCEval({i \in Idx(c) : \A j \in 1..i - 1 : cell[j] # cell[i]})
      box == TLCEval([i \in Idx(c) |-> IF i \in leads THEN Around(c, {j \in Idx(c) : cell[j] = cell[i]}) ELSE hull]) IN
  /\ Len(s) >= 1 /\ Len(s) <= Cardinality(Firsts(c))
  /\ \A i \in 1..Len(s) : Inside(hull, s[i])
  /\ (Len(c.U) = 0 /\ generic) =>
       /\ Len(s) = Cardinality(leads)
       /\ \A k \in leads : \E i \in 1..Len(s) : Inside(box[k], s[i])
       /\ \A i \in 1..Len(s) : \E k \in leads : Inside(box[k], s[i])
\* deep trees: going deeper never merges what was apart, and never exceeds the points
DeepOk(c, o) == \A i \in 1..Len(c.D) :
                  /\ Len(o.cut[i]) >= 1 /\ Len(o.cut[i]) <= Cardinality(Firsts(c))
                  /\ \A j \in 1..Len(c.D) : c.D[i] <= c.D[j] => Len(o.cut[i]) <= Len(o.cut[j])
                  \* points that are multiples of 2^-k sit in cells of their own once level m + 2 reaches k + 4
                  /\ \A j \in Firsts(c) : Shrink(c, j) + 4 <= c.D[i] => Len(o.cut[i]) >= Cardinality({q \in Firsts(c) : Shrink(c, q) + 4 <= c.D[i]})
Conforms == l = 1 => LET c == Traces[t]
                o == c.obs IN
  IF ~Volume(c) THEN o.built = "err"
  ELSE IF o.built = "err" THEN Len(c.U) > 0   \* points closer than the number type can halve may be refused, never lost
  ELSE /\ o.size = Cardinality(Firsts(c))
       /\ Once(c, o.pts) /\ Once(c, o.all)
       /\ IF Len(c.S) > 0 THEN DeepOk(c, o)
          ELSE \A i \in 1..Len(c.D) : CutOk(c, c.D[i], o.cut[i])
=============================================================================
