------------------------------ MODULE IndexVec ------------------------------
(* C01: index containers.  Abstract state: the ideal sequence of numbers that *)
(* the user wrote, and the storage width the container may currently use.     *)
(* Numbers are decimal strings (TLC integers are 32 bit); Need gives the      *)
(* narrowest storage class of each.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,     \* subset of {"dyn", "u32", "usize"}
          MaxOps,    \* length of a history
          MaxLen,    \* bound on the container length
          Rich       \* TRUE: full value pool, FALSE: reduced

VARIABLES st, hist, done
vars == <<st, hist, done>>

Need(v) == CASE v \in {"0", "7", "255"} -> 1
             [] v \in {"256", "300", "65535"} -> 2
             [] v \in {"65536", "70001", "4294967295"} -> 3
             [] v \in {"4294967296", "18446744073709551615"} -> 4
WidthName == <<"u8", "u16", "u32", "usize">>
All == {"0", "7", "255", "256", "300", "65535", "65536", "70001", "4294967295", "4294967296", "18446744073709551615"}
Few == {"7", "255", "256", "65535", "65536", "4294967295", "4294967296"}
Pool(k) == {v \in (IF Rich THEN All ELSE Few) : k = "u32" => Need(v) <= 3}

Max(a, b) == IF a > b THEN a ELSE b
MaxNeed(s) == IF s = <<>> THEN 1 ELSE CHOOSE n \in {Need(s[i]) : i \in 1..Len(s)} : \A i \in 1..Len(s) : Need(s[i]) <= n

\* what an observer sees
Obs(s, r) == [r |-> r, len |-> Len(s.vals), vals |-> s.vals, it |-> s.vals,
              w |-> IF s.kind = "dyn" THEN WidthName[s.w] ELSE "-"]

Promote(s, v) == [s EXCEPT !.w = Max(@, Need(v))]

\* one action per call of the API
Push(s, v)    == [s |-> [Promote(s, v) EXCEPT !.vals = Append(@, v)], r |-> TRUE]
Set(s, i, v)  == [s |-> [Promote(s, v) EXCEPT !.vals[i + 1] = v], r |-> TRUE]
Ensure(s, v)  == [s |-> Promote(s, v), r |-> TRUE]
Reserve(s, n) == [s |-> s, r |-> TRUE]
Upgrade(s)    == IF s.kind = "dyn" THEN [s |-> [s EXCEPT !.w = 4], r |-> TRUE] ELSE [s |-> s, r |-> FALSE]
MutSet(s, i, v) == IF s.kind = "dyn" /\ Need(v) <= s.w
                   THEN [s |-> [s EXCEPT !.vals[i + 1] = v], r |-> TRUE]
                   ELSE [s |-> s, r |-> FALSE]

Apply(s, op) == CASE op.op = "push"    -> Push(s, op.v)
                  [] op.op = "set"     -> Set(s, op.i, op.v)
                  [] op.op = "ensure"  -> Ensure(s, op.v)
                  [] op.op = "reserve" -> Reserve(s, op.n)
                  [] op.op = "upgrade" -> Upgrade(s)
                  [] op.op = "mut"     -> MutSet(s, op.i, op.v)
                  [] op.op = "clone"   -> [s |-> s, r |-> TRUE]
                  [] op.op = "start"   -> [s |-> s, r |-> TRUE]

Idx(s) == {i \in 0..(Len(s.vals) - 1) : i = 0 \/ i = Len(s.vals) - 1}
Ops(s) == (IF Len(s.vals) < MaxLen THEN {[op |-> "push", v |-> v] : v \in Pool(s.kind)} ELSE {})
          \cup {[op |-> "set", i |-> i, v |-> v] : i \in Idx(s), v \in Pool(s.kind)}
          \cup (IF s.kind = "dyn" THEN {[op |-> "ensure", v |-> v] : v \in {"255", "256", "65536", "4294967296"}}
                    \cup {[op |-> "mut", i |-> i, v |-> v] : i \in Idx(s), v \in {"0", "255", "65535"}}
                    \cup {[op |-> "upgrade"]} ELSE {})
          \cup {[op |-> "reserve", n |-> 5], [op |-> "clone"]}

\* construction: from an existing vector (the widest value decides) or empty
Froms == {"new", "cap", "sup", "capsup", "u8", "u16", "u32", "usize", "u8r", "u16r", "u32r", "usizer"}
Inits == {<<>>, <<"7">>, <<"7", "255">>, <<"255", "256">>, <<"65535", "0">>, <<"65536">>, <<"7", "4294967295", "0">>,
          <<"4294967296", "1">>}
NeedX(v) == IF v = "1" THEN 1 ELSE Need(v)
Seqs == {q \in Inits : TRUE}
Fits(f, q) == \A i \in 1..Len(q) : NeedX(q[i]) <= (CASE f \in {"u8", "u8r"} -> 1 [] f \in {"u16", "u16r"} -> 2
                                                     [] f \in {"u32", "u32r"} -> 3 [] OTHER -> 4)
MaxNeedX(q) == IF q = <<>> THEN 1 ELSE CHOOSE n \in 1..4 : (\E i \in 1..Len(q) : NeedX(q[i]) = n) /\ \A i \in 1..Len(q) : NeedX(q[i]) <= n

Event(s, op) == LET a == Apply(s, op) IN op @@ [exp |-> Obs(a.s, a.r)]

Init == done = FALSE /\ \E k \in Kinds : \E q \in Inits : \E f \in (IF k = "dyn" THEN Froms ELSE {"new", "cap", "sup", "capsup"}) :
          /\ Fits(f, q)
          /\ k = "u32" => MaxNeedX(q) <= 3
          /\ st = [kind |-> k, vals |-> q, w |-> MaxNeedX(q)]
          /\ hist = [fam |-> "ivec", kind |-> k, from |-> f, init |-> q,
                     ops |-> <<Event([kind |-> k, vals |-> q, w |-> MaxNeedX(q)], [op |-> "start"])>>]

Next == \/ /\ Len(hist.ops) <= MaxOps
           /\ \E op \in Ops(st) :
                /\ st' = Apply(st, op).s
                /\ hist' = [hist EXCEPT !.ops = Append(@, Event(st, op))]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>

\* the property, on the specification: nothing written is ever truncated or lost
Inv == /\ \A i \in 1..Len(st.vals) : NeedX(st.vals[i]) <= (IF st.kind = "dyn" THEN st.w ELSE IF st.kind = "u32" THEN 3 ELSE 4)
       /\ st.w \in 1..4
\* widths only ever grow, positions keep their values unless they are the target of the operation
Stable == [][st'.w >= st.w /\ Len(st'.vals) >= Len(st.vals)
             /\ Cardinality({i \in 1..Len(st.vals) : st'.vals[i] # st.vals[i]}) <= 1]_vars

Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
