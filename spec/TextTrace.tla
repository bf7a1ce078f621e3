----------------------------- MODULE TextTrace -----------------------------
(* C44: what is printed is what there is.  Every printable thing writes all  *)
(* its parts in order in its one form; a text written by a point or a cloud  *)
(* is read back to the same coordinates; errors name line and cause, and     *)
(* different errors read differently.  Coordinates are halves.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---------------------------------------------------------------- the writer: numbers, then lists of numbers
Half(v) == IF v % 2 = 0 THEN ToString(v \div 2) ELSE (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 2) \o ".5"
Sep(p, s) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE s) \o Half(p[i]), "", [i \in 1..Len(p) |-> i])
Shown(p) == "(" \o Sep(p, ", ") \o ")"
Two(p, q) == "(" \o Sep(p, ", ") \o " -> " \o Sep(q, ", ") \o ")"
Lines(P, F(_)) == FoldLeft(LAMBDA a, p : a \o F(p) \o "\n", "", P)
Words(p) == Sep(p, " ")
Cut(p) == SubSeq(p, 1, 2)
ShapeOk(c, o) ==
  LET P == c.P  Q == [i \in 1..Len(c.P) |-> Cut(c.P[i])]  n == Len(c.P)
      Form(x, R) ==
        /\ x.pts = [i \in 1..n |-> Shown(R[i])] /\ x.strs = [i \in 1..n |-> Words(R[i])]
        /\ x.cloud = Lines(R, Shown) /\ x.poly = Lines(R, Shown) /\ x.text = Lines(R, Words)
        /\ x.again                                      \* the cloud's text reads as the cloud (an empty one does not)
  IN /\ Form(o.two, Q) /\ Form(o.three, P)
     /\ n > 0 => LET d == [i \in 1..3 |-> IF i = c.axis THEN 2 * c.sign ELSE 0]
                     e == [i \in 1..2 |-> IF i = ((c.axis - 1) % 2) + 1 THEN 2 * c.sign ELSE 0] IN
                 /\ o.line2 = Two(Q[1], e) /\ o.ray2 = Two(Q[1], e)
                 /\ o.line3 = Two(P[1], d) /\ o.ray3 = Two(P[1], d)
                 /\ o.seg2 = Two(Q[1], Q[n]) /\ o.seg3 = Two(P[1], P[n])
NumsOk(c, o) ==
  /\ o.face = Shown([i \in 1..3 |-> 2 * c.ids[i]])
  /\ o.ids = [i \in 1..4 |-> ToString(c.ids[1])]
  /\ o.moved = [i \in 1..4 |-> c.ids[2]]
  /\ o.angles = [i \in 1..2 |-> Half(c.a)]
  /\ o.turned = [i \in 1..2 |-> c.b]
  /\ o.pos = (IF c.a > 0 THEN Half(c.a) ELSE "-")
  /\ o.non = (IF c.a >= 0 THEN Half(c.a) ELSE "-")
\* ---------------------------------------------------------------- errors
InfoOk(c, o) ==
  /\ o.none = c.e
  /\ o.index = "Line #" \o ToString(c.i) \o ": '" \o c.e \o "'"
  /\ o.line = "Line #" \o ToString(c.i) \o ": '" \o c.e \o "' '" \o c.w \o "'"
ErrsOk(o) == \A g \in 1..Len(o.groups) : LET G == o.groups[g] IN
  /\ \A i \in 1..Len(G) : G[i][1] # "" /\ \A j \in 1..Len(G[i]) : G[i][j] = G[i][1]   \* an error wrapped in another reads as itself
  /\ Cardinality({G[i][1] : i \in 1..Len(G)}) = Len(G)
\* ---------------------------------------------------------------- the reader of clouds: every line a point, no line is no cloud
CloudOk(c, o) ==
  LET full == SelectSeq(c.lines, LAMBDA w : w # <<>>)
      good == full # <<>> /\ \A i \in 1..Len(full) : Len(full[i]) = c.dim /\ \A j \in 1..Len(full[i]) : full[i][j][1] = 1
  IN /\ o.ok = good
     /\ o.p = (IF good THEN [i \in 1..Len(full) |-> [j \in 1..c.dim |-> full[i][j][2]]] ELSE <<>>)
Conforms == l = 1 => LET c == Traces[t]  o == c.obs IN
  CASE c.kind = "shape" -> ShapeOk(c, o)
    [] c.kind = "nums" -> NumsOk(c, o)
    [] c.kind = "info" -> InfoOk(c, o)
    [] c.kind = "errs" -> ErrsOk(o)
    [] c.kind = "cloud" -> CloudOk(c, o)
=============================================================================
