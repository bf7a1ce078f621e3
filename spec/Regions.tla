------------------------------- MODULE Regions -------------------------------
(* C12: a geometric filter is a region: a centre c and half extents h (box) or *)
(* a radius h[1] (circle, sphere).  All numbers are quarter units.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, Kinds, Deep
VARIABLES st, hist, done
vars == <<st, hist, done>>
D(s) == 1..(IF s.kind \in {"box2", "circle"} THEN 2 ELSE 3)
Dim(s) == IF s.kind \in {"box2", "circle"} THEN 2 ELSE 3
Round(s) == s.kind \in {"circle", "sphere"}
Sq(x) == x * x
RECURSIVE SumSq(_, _, _)
SumSq(s, p, d) == IF d = 0 THEN 0 ELSE Sq(p[d] - s.c[d]) + SumSq(s, p, d - 1)
Allowed(s, p) == IF Round(s) THEN SumSq(s, p, Dim(s)) <= Sq(s.h[1])
                 ELSE \A d \in D(s) : p[d] >= s.c[d] - s.h[d] /\ p[d] <= s.c[d] + s.h[d]
\* probes around the region: on, just inside, just outside each face; for round ones all lattice directions of exact length
Dirs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<3, 4, 0>>, <<4, 0, 3>>, <<0, 3, 4>>, <<2, 1, 2>>, <<2, 3, 6>>, <<1, 1, 0>>, <<1, 1, 1>>, <<0, 1, 1>>}
Sgn == {<<1, 1, 1>>, <<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>, <<-1, -1, -1>>}
Len2(v) == CASE v \in {<<3, 4, 0>>, <<4, 0, 3>>, <<0, 3, 4>>} -> 5 [] v = <<2, 1, 2>> -> 3 [] v = <<2, 3, 6>> -> 7 [] OTHER -> 1
RoundProbes(s) == UNION {{[d \in 1..3 |-> s.c[d] + g[d] * v[d] * k] : g \in Sgn, k \in {0, s.h[1] \div Len2(v), s.h[1] \div Len2(v) + 1}} : v \in Dirs}
Off(s, d) == {-s.h[d] - 1, -s.h[d], 1 - s.h[d], s.h[d] - 1, s.h[d], s.h[d] + 1}
BoxProbes(s) == {[s.c EXCEPT ![d] = @ + o] : d \in D(s), o \in UNION {Off(s, e) : e \in D(s)}}
                \cup {[e \in 1..3 |-> IF e <= Dim(s) THEN s.c[e] + g[e] * s.h[e] ELSE 0] : g \in Sgn}
                \cup {[e \in 1..3 |-> IF e <= Dim(s) THEN s.c[e] + g[e] * (s.h[e] + 1) ELSE 0] : g \in Sgn}
Flat(s, p) == [d \in 1..3 |-> IF d \in D(s) THEN p[d] ELSE 0]
Probes(s) == {Flat(s, p) : p \in (IF Round(s) THEN RoundProbes(s) ELSE BoxProbes(s))}
H(s) == IF Round(s) THEN [d \in D(s) |-> s.h[1]] ELSE [d \in D(s) |-> s.h[d]]
Obs(s, r, q) == [r |-> r, c |-> [d \in D(s) |-> s.c[d]],
                 lo |-> [d \in D(s) |-> s.c[d] - H(s)[d]], hi |-> [d \in D(s) |-> s.c[d] + H(s)[d]],
                 a |-> [i \in 1..Len(q) |-> Allowed(s, q[i])]]
Ok(s) == [s |-> s, r |-> "ok"]
Apply(s, op) ==
  CASE op.op = "start" -> Ok(s)
    [] op.op = "set" -> Ok([s EXCEPT !.c[op.d] = op.v])
    [] op.op = "pos" -> IF op.d \in D(s) THEN Ok([s EXCEPT !.c[op.d] = op.v]) ELSE [s |-> s, r |-> "err"]
    [] op.op = "from" -> Ok([s EXCEPT !.c = Flat(s, op.p)])
    [] op.op = "fromnd" -> Ok([s EXCEPT !.c = Flat(s, op.p)])
    [] op.op = "scale2" -> Ok([s EXCEPT !.h = [d \in 1..3 |-> 2 * s.h[d]]])
    [] op.op = "scalehalf" -> Ok([s EXCEPT !.h = [d \in 1..3 |-> s.h[d] \div 2]])
    [] op.op = "bb" -> Ok([s EXCEPT !.c = Flat(s, op.p), !.h = op.h])
    [] op.op = "new" -> Ok([s EXCEPT !.c = Flat(s, op.p), !.h = IF Round(s) THEN <<4, 4, 4>> ELSE <<2, 2, 2>>])
Pts == {<<7, -12, 3>>, <<-30, 0, 18>>}
Ops(s) == {[op |-> "set", d |-> d, v |-> v] : d \in D(s), v \in {-9, 22}}
          \cup {[op |-> "pos", d |-> d, v |-> 5] : d \in 1..4}
          \cup {[op |-> o, p |-> p] : o \in {"from", "fromnd", "new"}, p \in Pts}
          \cup (IF s.h[1] < 200 /\ s.h[2] < 200 /\ s.h[3] < 200 THEN {[op |-> "scale2"]} ELSE {})
          \cup (IF s.h[1] % 2 = 0 /\ s.h[2] % 2 = 0 /\ s.h[3] % 2 = 0 THEN {[op |-> "scalehalf"]} ELSE {})
          \cup (IF Round(s) THEN {} ELSE {[op |-> "bb", p |-> p, h |-> h] : p \in Pts, h \in {<<6, 2, 12>>}})
Event(s, op) == LET a == Apply(s, op) IN
                LET q == SetToSeq(Probes(a.s)) IN op @@ [q |-> q, exp |-> Obs(a.s, a.r, q)]
Sizes == {<<2, 6, 10>>, <<30, 30, 30>>, <<35, 14, 4>>, <<1, 1, 1>>} \cup (IF Deep THEN {<<105, 21, 42>>, <<8, 16, 64>>} ELSE {})
Cs == {<<0, 0, 0>>, <<5, -7, 9>>} \cup (IF Deep THEN {<<-100, 33, 250>>} ELSE {})
Init == /\ done = FALSE
        /\ \E k \in Kinds : \E c \in Cs : \E h \in Sizes :
             LET s0 == [kind |-> k, c |-> c, h |-> h] IN LET s == [s0 EXCEPT !.c = Flat(s0, c)] IN
             /\ st = s
             /\ hist = [fam |-> "region", kind |-> k, c |-> c, h |-> h, ops |-> <<Event(s, [op |-> "start"])>>]
Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op).s /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* the centre belongs to the region, a region is inside its bounds and touches them
Inv == /\ Allowed(st, st.c)
       /\ \A p \in Probes(st) : Allowed(st, p) => \A d \in D(st) : p[d] >= st.c[d] - H(st)[d] /\ p[d] <= st.c[d] + H(st)[d]
       /\ \A d \in D(st) : Allowed(st, [st.c EXCEPT ![d] = @ + H(st)[d]]) /\ ~Allowed(st, [st.c EXCEPT ![d] = @ + H(st)[d] + 1])
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
