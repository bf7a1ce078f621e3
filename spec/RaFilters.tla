------------------------------ MODULE RaFilters ------------------------------
(* C11: collection filters are built on a stack (leaf = element predicate,     *)
(* all/any of several), then run over a collection with a current view.        *)
(* The meaning of a collection filter is the set of elements it keeps; running *)
(* it intersects the current view with that set.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxArity, Sizes, Wide
VARIABLES st, hist, done
vars == <<st, hist, done>>
All(s) == 0..(s.n - 1)
\* a view might select positions the collection does not have: no element filter keeps those (an empty collection is not narrowed)
Wider(s) == IF s.n = 0 THEN {} ELSE 0..(s.n + 20)
Top(s) == s.f[Len(s.f)]
Drop(f, k) == SubSeq(f, 1, Len(f) - k)
Tops(f, k) == {f[i] : i \in (Len(f) - k + 1)..Len(f)}
Apply(s, op) ==
  CASE op.op = "leaf" -> [s EXCEPT !.f = Append(@, op.i \cap All(s))]
    [] op.op = "all" -> [s EXCEPT !.f = Append(Drop(@, op.k), {e \in Wider(s) : \A F \in Tops(s.f, op.k) : e \in F})]
    [] op.op = "any" -> [s EXCEPT !.f = Append(Drop(@, op.k), {e \in Wider(s) : \E F \in Tops(s.f, op.k) : e \in F})]
    [] op.op = "run" -> [s EXCEPT !.f = Drop(@, 1), !.w = @ \cap Top(s)]
    [] op.op = "view" -> [s EXCEPT !.w = op.i \cap Wider(s)]
    [] op.op = "full" -> [s EXCEPT !.w = All(s)]
Preds == {{}, {0}, {1, 2}, {0, 2, 3}, {0, 1, 2, 3, 4, 5}, {1, 3, 5}, {2, 4}}
Views == {{}, {0}, {0, 1}, {1, 2, 4}, {0, 2, 3, 5}, {1, 9}, {0, 3, 7, 20}}
\* Wide: many elements, and one all/any of MaxArity filters, all but (at most) two of them without influence
Stretch(s, j) == CASE j = 1 -> {i \in All(s) : i >= 40} [] j = 2 -> {i \in All(s) : i % 7 = 3} [] j = 3 -> {s.n - 1}
                   [] j = 4 -> {i \in All(s) : i % 2 = 0} [] j = 5 -> All(s)
Plans == [k : {"all", "any"}, a : 1..MaxArity, b : {1, 2, MaxArity - 1, MaxArity}, w : {1, 4, 5}]
Planned(s, p, i) == CASE i = 1 -> IF p.w = 5 THEN {[op |-> "full"]} ELSE {[op |-> "view", i |-> Stretch(s, p.w)]}
                      [] i = MaxArity + 2 -> {[op |-> p.k, k |-> MaxArity]}
                      [] i = MaxArity + 3 -> {[op |-> "run"]}
                      [] i - 1 = p.a -> {[op |-> "leaf", i |-> Stretch(s, 1 + ((p.a + p.b) % 4))]}
                      [] i - 1 = p.b -> {[op |-> "leaf", i |-> Stretch(s, 2)]}
                      [] OTHER -> {[op |-> "leaf", i |-> IF p.k = "all" THEN All(s) ELSE {}]}
Ops(s) == IF Wide THEN Planned(s, hist.plan, Len(hist.ops) + 1) ELSE
          {[op |-> "leaf", i |-> i] : i \in Preds}
          \cup {[op |-> o, k |-> k] : o \in {"all", "any"}, k \in 0..(IF Len(s.f) < MaxArity THEN Len(s.f) ELSE MaxArity)}
          \cup (IF s.f # <<>> THEN {[op |-> "run"]} ELSE {})
          \cup (IF hist.ops = <<>> THEN {[op |-> "view", i |-> i] : i \in Views} \cup {[op |-> "full"]} ELSE {})
Show(op) == IF op.op \in {"leaf", "view"} THEN [op EXCEPT !.i = SetToSortSeq(@, <)] ELSE op
Event(s, op) == Show(op) @@ [exp |-> SetToSortSeq(Apply(s, op).w, <)]
Init == \E n \in Sizes : st = [n |-> n, f |-> <<>>, w |-> All([n |-> n])] /\ done = FALSE
                         /\ IF Wide THEN \E p \in Plans : hist = [fam |-> "rafilter", n |-> n, plan |-> p, ops |-> <<>>]
                            ELSE hist = [fam |-> "rafilter", n |-> n, ops |-> <<>>]
Ran == hist.ops # <<>> /\ hist.ops[Len(hist.ops)].op = "run"
Next == \/ /\ Len(hist.ops) < MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op) /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Inv == st.w \subseteq Wider(st) /\ \A i \in 1..Len(st.f) : st.f[i] \subseteq Wider(st)
\* filtering only ever narrows
Narrow == [][(hist'.ops # hist.ops /\ hist'.ops[Len(hist'.ops)].op = "run") => st'.w \subseteq st.w]_vars
Dump == done => (~(\E i \in 1..Len(hist.ops) : hist.ops[i].op = "run")) \/ PrintT("@@" \o ToJson(hist))
=============================================================================
