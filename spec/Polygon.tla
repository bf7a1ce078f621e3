------------------------------ MODULE Polygon ------------------------------
(* C08: a closed polygon.  Vertices sit on a line, vertex value k stands for  *)
(* the point k*(3,4) (2D) or k*(2,3,6) (3D), so every distance is Unit*|dk|.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxV
VARIABLES st, hist, done
vars == <<st, hist, done>>
N(s) == Len(s.V)
Unit(s) == IF s.dim = 2 THEN 5 ELSE 7
Abs(x) == IF x < 0 THEN -x ELSE x
Succ(s, i) == IF i = N(s) THEN 1 ELSE i + 1           \* the loop: 1-based successor
Seg(s, i) == <<i - 1, Succ(s, i) - 1>>
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE Abs(s.V[i] - s.V[Succ(s, i)]) + Sum(s, i - 1)
Obs(s, r) == [r |-> r, n |-> N(s), nv |-> N(s), V |-> s.V, seg |-> [i \in 1..N(s) |-> Seg(s, i)],
              segv |-> [i \in 1..N(s) |-> <<s.V[i], s.V[Succ(s, i)]>>], len |-> Unit(s) * Sum(s, N(s)), oob |-> TRUE]
Add(s, k) == [s |-> [s EXCEPT !.V = Append(@, k)], r |-> N(s)]
Change(s, v, k) == IF v < N(s) THEN [s |-> [s EXCEPT !.V[v + 1] = k], r |-> 0] ELSE [s |-> s, r |-> -1]
Move(s, k) == [s |-> [s EXCEPT !.V = [i \in 1..N(s) |-> s.V[i] + k]], r |-> 0]
Apply(s, op) == CASE op.op = "add" -> Add(s, op.k) [] op.op = "chg" -> Change(s, op.v, op.k)
                  [] op.op = "mov" -> Move(s, op.k) [] op.op = "start" -> [s |-> s, r |-> 0]
Vals == {0, 3, -7}
Ops(s) == (IF N(s) < MaxV THEN {[op |-> "add", k |-> k] : k \in Vals} ELSE {})
          \cup {[op |-> "chg", v |-> v, k |-> k] : v \in {0, N(s) - 1, N(s), N(s) + 1} \cap Nat, k \in {5}}
          \cup {[op |-> "mov", k |-> 2]}
Event(s, op) == LET a == Apply(s, op) IN op @@ [exp |-> Obs(a.s, a.r)]
Init == /\ done = FALSE
        /\ \E d \in {2, 3} : \E v \in {<<>>, <<4>>, <<1, 9, 2>>} :
             LET s == [dim |-> d, V |-> v] IN
             /\ st = s
             /\ hist = [fam |-> "poly", dim |-> d, V |-> v, ops |-> <<Event(s, [op |-> "start"])>>]
Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op).s /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* every vertex starts exactly one segment and ends exactly one; following the segments visits all vertices
Inv == LET segs == {Seg(st, i) : i \in 1..N(st)} IN
       /\ \A v \in 0..(N(st) - 1) : Cardinality({x \in segs : x[1] = v}) = 1 /\ Cardinality({x \in segs : x[2] = v}) = 1
Stable == [][Len(st'.V) >= Len(st.V)]_vars
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
