-------------------------------- MODULE BBox --------------------------------
(* C13: two box registers a and b (lower corner, upper corner), quarter units. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Randomization, TLC, Json
CONSTANTS MaxOps, Dims, Coords, Mode
VARIABLES st, hist, done
vars == <<st, hist, done>>
D(s) == 1..s.dim
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y
Valid(s, lo, hi) == \A d \in D(s) : lo[d] < hi[d]
Holds(s, b, p) == \A d \in D(s) : b.lo[d] < p[d] /\ p[d] < b.hi[d]
Inside(s, x, y) == \A d \in D(s) : x.lo[d] > y.lo[d] /\ x.hi[d] < y.hi[d]
Overlap(s, x, y) == \A d \in D(s) : x.lo[d] < y.hi[d] /\ y.lo[d] < x.hi[d]
Hull(x, y) == [lo |-> [d \in 1..3 |-> Lo(x.lo[d], y.lo[d])], hi |-> [d \in 1..3 |-> Hi(x.hi[d], y.hi[d])]]
Sq(x) == x * x
Gap(x, lo, hi) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
GapB(x, y, d) == IF x.hi[d] < y.lo[d] THEN y.lo[d] - x.hi[d] ELSE IF y.hi[d] < x.lo[d] THEN x.lo[d] - y.hi[d] ELSE 0
RECURSIVE PDist(_, _, _)
PDist(b, p, d) == IF d = 0 THEN 0 ELSE Sq(Gap(p[d], b.lo[d], b.hi[d])) + PDist(b, p, d - 1)
RECURSIVE BDist(_, _, _)
BDist(x, y, d) == IF d = 0 THEN 0 ELSE Sq(GapB(x, y, d)) + BDist(x, y, d - 1)
Cut(s, v) == [d \in D(s) |-> v[d]]
\* probe points: corners of both boxes, centres of faces, and their neighbours
Probes(s) == {s.a.lo, s.a.hi, s.b.lo, s.b.hi} \cup {[s.a.lo EXCEPT ![d] = @ + 1] : d \in D(s)}
             \cup {[d \in 1..3 |-> (s.a.lo[d] + s.a.hi[d]) \div 2]}
             \cup {[d \in 1..3 |-> IF d = e THEN s.a.hi[d] + o ELSE s.a.hi[d] - 1] : e \in D(s), o \in {-1, 0, 1}}
             \cup {[d \in 1..3 |-> IF d = e THEN s.a.lo[d] + o ELSE s.a.lo[d] + 1] : e \in D(s), o \in {-1, 0, 1}}
Corners(s) == {[d \in D(s) |-> IF d \in S THEN s.a.hi[d] ELSE s.a.lo[d]] : S \in SUBSET D(s)}
Obs(s, r, q) ==
  [r |-> r, alo |-> Cut(s, s.a.lo), ahi |-> Cut(s, s.a.hi), blo |-> Cut(s, s.b.lo), bhi |-> Cut(s, s.b.hi),
   c2 |-> [d \in D(s) |-> s.a.lo[d] + s.a.hi[d]], size |-> [d \in D(s) |-> s.a.hi[d] - s.a.lo[d]],
   corners |-> Cardinality(Corners(s)),
   contains |-> [i \in 1..Len(q) |-> Holds(s, s.a, q[i])],
   pd |-> [i \in 1..Len(q) |-> PDist(s.a, q[i], s.dim)],
   cross |-> [d \in D(s) |-> [i \in 1..Len(q) |-> s.a.lo[d] < q[i][d] /\ q[i][d] < s.a.hi[d]]],
   inside |-> <<Inside(s, s.a, s.b), Inside(s, s.b, s.a)>>, hasin |-> <<Inside(s, s.b, s.a), Inside(s, s.a, s.b)>>,
   coll |-> <<Overlap(s, s.a, s.b), Overlap(s, s.b, s.a)>>, bd |-> BDist(s.a, s.b, s.dim)]
Ok(s) == [s |-> s, r |-> "ok"]
PMin(P, d) == CHOOSE x \in {P[i][d] : i \in 1..Len(P)} : \A i \in 1..Len(P) : x <= P[i][d]
PMax(P, d) == CHOOSE x \in {P[i][d] : i \in 1..Len(P)} : \A i \in 1..Len(P) : x >= P[i][d]
Apply(s, op) ==
  CASE op.op = "start" -> Ok(s)
    [] op.op = "new" -> IF Valid(s, op.lo, op.hi) THEN Ok([s EXCEPT !.a = [lo |-> op.lo, hi |-> op.hi]]) ELSE [s |-> s, r |-> "err"]
    [] op.op = "pts" -> IF Len(op.P) < 2 THEN [s |-> s, r |-> "err"]
                        ELSE LET lo == [d \in 1..3 |-> PMin(op.P, d)]  hi == [d \in 1..3 |-> PMax(op.P, d)] IN
                             IF Valid(s, lo, hi) THEN Ok([s EXCEPT !.a = [lo |-> lo, hi |-> hi]]) ELSE [s |-> s, r |-> "err"]
    [] op.op = "swap" -> Ok([s EXCEPT !.a = s.b, !.b = s.a])
    [] op.op = "consume" -> Ok([s EXCEPT !.a = Hull(s.a, s.b)])
    [] op.op = "combine" -> Ok([s EXCEPT !.a = Hull(s.a, s.b)])
    [] op.op = "move" -> Ok([s EXCEPT !.a = [lo |-> [d \in 1..3 |-> s.a.lo[d] + op.p[d]], hi |-> [d \in 1..3 |-> s.a.hi[d] + op.p[d]]]])
    [] op.op = "scale3" -> Ok([s EXCEPT !.a = [lo |-> [d \in 1..3 |-> 2 * s.a.lo[d] - s.a.hi[d]], hi |-> [d \in 1..3 |-> 2 * s.a.hi[d] - s.a.lo[d]]]])
Vec(S) == {<<x, y, z>> : x \in S, y \in S, z \in S}
Flat(S) == {<<x, y, 0>> : x \in S, y \in S}   \* constants of the model are offset by 9
Srcs(s) == IF s.dim = 2 THEN <<"iter", "into", "pc", "poly", "seg">> ELSE <<"iter", "into", "pc", "f32", "mesh", "smesh", "poly", "seg", "tri">>
Fits(src, n) == (src = "seg" => n = 2) /\ (src = "tri" => n = 3)
\* boxes around points, from every source of points
Pts(s, V) == {o \in {[op |-> "pts", src |-> Srcs(s)[k], P |-> P] : k \in RandomSubset(3, 1..Len(Srcs(s))),
                   P \in {[i \in 1..m |-> RandomElement(V)] : m \in RandomSubset(4, {0, 1, 2, 3, 3, 7, 150})}} : Fits(o.src, Len(o.P))}
\* mode "points": sources of points only; "pairs": all pairs of boxes; "one": all single boxes, valid or not; "walk": random operations
Ops(s) ==
  LET C == {x - 9 : x \in Coords}
      V == IF s.dim = 2 THEN Flat(C) ELSE Vec(C)
      New(A, B) == {[op |-> "new", lo |-> lo, hi |-> hi] : lo \in A, hi \in B}
      n == Len(hist.ops)
  IN CASE Mode = "pairs" -> IF n = 2 THEN {[op |-> "swap"]} ELSE {o \in New(V, V) : Valid(s, o.lo, o.hi)}
       [] Mode = "one" -> New(V, V)
       [] Mode = "points" -> Pts(s, V)
       [] Mode = "walk" ->
          New(RandomSubset(2, V), RandomSubset(3, V)) \cup Pts(s, V)
          \cup {[op |-> o] : o \in {"swap", "consume", "combine"}}
          \cup {[op |-> "move", p |-> p] : p \in {<<1, 0, -2>>, <<-3, 5, 4>>}}
          \cup (IF \A d \in 1..3 : s.a.hi[d] - s.a.lo[d] < 60 THEN {[op |-> "scale3"]} ELSE {})
Event(s, op) == LET a == Apply(s, op) IN
                LET q == SetToSeq(Probes(a.s)) IN op @@ [q |-> q, exp |-> Obs(a.s, a.r, q)]
Unit == [lo |-> <<-2, -2, -2>>, hi |-> <<2, 2, 2>>]
Init == /\ done = FALSE
        /\ \E dim \in Dims : LET s == [dim |-> dim, a |-> Unit, b |-> Unit] IN
             /\ st = s
             /\ hist = [fam |-> "bbox", dim |-> dim, ops |-> <<Event(s, [op |-> "start"])>>]
Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op).s /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* the predicates fit together
Inv == /\ Valid(st, st.a.lo, st.a.hi) /\ Valid(st, st.b.lo, st.b.hi)
       /\ Overlap(st, st.a, st.b) = Overlap(st, st.b, st.a)
       /\ Inside(st, st.a, st.b) => Overlap(st, st.a, st.b) /\ Cut(st, Hull(st.a, st.b).lo) = Cut(st, st.b.lo)
                                   /\ Cut(st, Hull(st.a, st.b).hi) = Cut(st, st.b.hi)
       /\ Overlap(st, st.a, st.b) => BDist(st.a, st.b, st.dim) = 0
       /\ BDist(st.a, st.b, st.dim) = BDist(st.b, st.a, st.dim)
       /\ \A p \in Probes(st) : Holds(st, st.a, p) => PDist(st.a, p, st.dim) = 0
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
