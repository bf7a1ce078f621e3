----------------------------- MODULE FilterLogic -----------------------------
(* C10: filters are built bottom up on a stack.  The meaning of a filter is    *)
(* the set of elements (0..7) it allows; base filter b allows the elements     *)
(* whose bit b is set, so every truth assignment of three base filters occurs. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxArity, Wide
VARIABLES st, hist, done
vars == <<st, hist, done>>
E == 0..7
Base == <<{1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}>>
H == Len(st)
Top(s, k) == s[Len(s) - k]
Drop(s, k) == SubSeq(s, 1, Len(s) - k)
Tops(s, k) == {s[i] : i \in (Len(s) - k + 1)..Len(s)}
Apply(s, op) ==
  CASE op.op = "base" -> Append(s, Base[op.n])
    [] op.op = "allow" -> Append(s, E)
    [] op.op = "deny" -> Append(s, {})
    [] op.op = "neg" -> Append(Drop(s, 1), E \ Top(s, 0))
    [] op.op = "and" -> Append(Drop(s, 2), Top(s, 1) \cap Top(s, 0))
    [] op.op = "or" -> Append(Drop(s, 2), Top(s, 1) \cup Top(s, 0))
    [] op.op = "xor" -> Append(Drop(s, 2), (Top(s, 1) \ Top(s, 0)) \cup (Top(s, 0) \ Top(s, 1)))
    [] op.op = "oi" -> Append(Drop(s, 2), Top(s, 1) \ Top(s, 0))
    [] op.op = "all" -> Append(Drop(s, op.n), {e \in E : \A F \in Tops(s, op.n) : e \in F})
    [] op.op = "any" -> Append(Drop(s, op.n), {e \in E : \E F \in Tops(s, op.n) : e \in F})
\* Wide: one all/any of MaxArity filters, all but (at most) two of them without influence
Plans == [k : {"all", "any"}, a : 1..MaxArity, b : 1..MaxArity]
Planned(p, i) == CASE i > MaxArity -> {[op |-> p.k, n |-> MaxArity]}
                   [] i = p.a -> {[op |-> "base", n |-> 1]}
                   [] i = p.b -> {[op |-> "base", n |-> 3]}
                   [] OTHER -> {[op |-> IF p.k = "all" THEN "allow" ELSE "deny"]}
Ops(s) == IF Wide THEN Planned(hist.plan, Len(hist.ops) + 1) ELSE
          {[op |-> "base", n |-> n] : n \in 1..3} \cup {[op |-> "allow"], [op |-> "deny"]}
          \cup (IF Len(s) >= 1 THEN {[op |-> "neg"]} ELSE {})
          \cup (IF Len(s) >= 2 THEN {[op |-> o] : o \in {"and", "or", "xor", "oi"}} ELSE {})
          \cup {[op |-> o, n |-> n] : o \in {"all", "any"}, n \in 0..(IF Len(s) < MaxArity THEN Len(s) ELSE MaxArity)}
Event(s, op) == op @@ [exp |-> SetToSortSeq(Top(Apply(s, op), 0), <)]
Init == st = <<>> /\ done = FALSE
        /\ IF Wide THEN \E p \in Plans : p.a <= p.b /\ hist = [fam |-> "flogic", plan |-> p, ops |-> <<>>]
           ELSE hist = [fam |-> "flogic", ops |-> <<>>]
Next == \/ /\ Len(hist.ops) < MaxOps
           /\ \E op \in Ops(st) : st' = Apply(st, op) /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
\* a filter never allows something outside the universe, and the stack is never empty after a step
Inv == (\A i \in 1..Len(st) : st[i] \subseteq E) /\ (hist.ops # <<>> => st # <<>>)
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
