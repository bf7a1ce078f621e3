------------------------------- MODULE Views -------------------------------
(* C09: a collection d (sequence of values) and a view register w that        *)
(* selects positions.  Applying keeps the selected positions in order; an      *)
(* index outside the collection is an error without any effect.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxLen, MaxIdx, MaxStart
VARIABLES st, hist, done
vars == <<st, hist, done>>
N(s) == Len(s.d)
Idx == 0..MaxIdx
Valid(s) == s.full \/ s.w \subseteq 0..(N(s) - 1)
Selected(s) == IF s.full THEN 0..(N(s) - 1) ELSE s.w
Sorted(S) == SetToSortSeq(S, <)
Keep(s) == LET q == Sorted(Selected(s)) IN [i \in 1..Len(q) |-> s.d[q[i] + 1]]
Obs(s, r, f) == [r |-> r, d |-> s.d, full |-> s.full, w |-> Sorted(s.w), f |-> f]
Same(s) == [s |-> s, r |-> "ok", f |-> <<>>]
Apply(s, op) ==
  CASE op.op = "start" -> Same(s)
    [] op.op = "push" -> Same([s EXCEPT !.d = Append(@, op.x)])
    [] op.op = "set" -> Same([s EXCEPT !.full = FALSE, !.w = op.i])
    [] op.op = "setfull" -> Same([s EXCEPT !.full = TRUE, !.w = {}])
    [] op.op = "union" -> Same(IF s.full THEN s ELSE [s EXCEPT !.w = @ \cup op.i])
    [] op.op = "unionfull" -> Same([s EXCEPT !.full = TRUE, !.w = {}])
    [] op.op = "apply" -> IF Valid(s) THEN Same([s EXCEPT !.d = Keep(s)]) ELSE [s |-> s, r |-> "err", f |-> <<>>]
    [] op.op = "from" -> IF Valid(s) THEN [s |-> s, r |-> "ok", f |-> Keep(s)] ELSE [s |-> s, r |-> "err", f |-> <<>>]
\* all sets of few positions, of many ones only stretches and patterns
Picks == IF MaxIdx <= 8 THEN SUBSET Idx
         ELSE {{i \in Idx : a <= i /\ i <= b /\ i % m = r} : a \in {0, 3, 31, MaxIdx - 9}, b \in {3, 33, 63, 64, MaxIdx - 1, MaxIdx}, m \in {1, 2, 7}, r \in {0, 1}}
Ops(s) == {[op |-> o, i |-> i] : o \in {"set", "union"}, i \in Picks}
          \cup {[op |-> o] : o \in {"setfull", "unionfull", "apply", "from"}}
          \cup (IF N(s) < MaxLen THEN {[op |-> "push", x |-> 90 + N(s)]} ELSE {})
Show(op) == IF op.op \in {"set", "union"} THEN [op EXCEPT !.i = Sorted(@)] ELSE op
Event(s, op) == LET a == Apply(s, op) IN Show(op) @@ [exp |-> Obs(a.s, a.r, a.f)]
Init == /\ done = FALSE
        /\ \E n \in (IF MaxStart <= 80 THEN 0..MaxStart ELSE {MaxStart - 1, MaxStart, 64, 130, 257}) :
             LET s == [d |-> [i \in 1..n |-> 10 * i], full |-> TRUE, w |-> {}] IN
             /\ st = s
             /\ hist = [fam |-> "views", d |-> s.d, ops |-> <<Event(s, [op |-> "start"])>>]
Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op).s /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* kept elements are a subsequence of what was there (values of the start are increasing), never more
Inv == \A i \in 1..(N(st) - 1) : st.d[i] < 90 => st.d[i] # st.d[i + 1]
Stable == [][\/ st'.d = st.d \/ Len(st'.d) = Len(st.d) + 1
             \/ \E f \in [1..Len(st'.d) -> 1..Len(st.d)] : \A i \in 1..Len(st'.d) : st'.d[i] = st.d[f[i]] /\ (i > 1 => f[i] > f[i - 1])]_vars
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
