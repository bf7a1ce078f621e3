---------------------------- MODULE ContainersMC ----------------------------
(* Generates edit histories for each collection kind.  The sequence is tracked *)
(* up to order (sorting), so only its length is needed to choose operations.   *)
EXTENDS Containers
CONSTANTS MaxOps, MaxLen, Kinds, Rich
VARIABLES n, hist, done
vars == <<n, hist, done>>
Dim(k) == IF k \in {"pc2"} THEN 2 ELSE 3
Flat(k, p) == IF Dim(k) = 2 THEN <<p[1], p[2], 0>> ELSE p
P0 == IF Rich THEN {<<1, 5, 2>>, <<1, 2, 2>>, <<3, 2, 0>>, <<-4, 0, 9>>, <<3, 5, 9>>, <<0, 0, 0>>, <<1, 2, 3>>}
      ELSE {<<1, 2, 3>>, <<0, 4, 1>>}
\* a long list, for collections that may hold as much
Long == IF MaxLen >= 300 THEN {[i \in 1..130 |-> <<((7 * i) % 100) - 40, i, (i % 3)>>]} ELSE {}
Lists == Long \cup (IF Rich THEN {<<>>, <<<<2, 2, 2>>>>, <<<<9, 1, 5>>, <<1, 9, 5>>, <<5, 1, 9>>>>} ELSE {<<<<2, 2, 2>>, <<1, 7, 0>>>>})
HasInsert(k) == k \in {"pc2", "pc3", "vec", "deque"}
IsPc(k) == k \in {"pc2", "pc3"}
Ops(k) == LET pts == {Flat(k, p) : p \in P0}
              idx == {0, n - 1, n, n + 1, n \div 2} \cap Nat
              lists == {[i \in 1..Len(L) |-> Flat(k, L[i])] : L \in Lists} IN
  {o \in {[op |-> o, p |-> p] : o \in {"push", "pushd"}, p \in pts} : n < MaxLen}
  \cup (IF HasInsert(k) /\ n < MaxLen THEN {[op |-> "ins", i |-> i, p |-> p] : i \in idx, p \in pts} ELSE {})
  \cup {[op |-> "setd", i |-> i, p |-> p] : i \in {x \in idx : x < n}, p \in pts}
  \cup {[op |-> "move", p |-> Flat(k, p)] : p \in {<<2, -1, 4>>}}
  \cup {[op |-> "reserve", i |-> 5], [op |-> "clone"]}
  \cup (IF IsPc(k) \/ k \in {"vec", "deque"} THEN {[op |-> "idx", i |-> i, p |-> p] : i \in {x \in idx : x < n}, p \in pts} ELSE {})
  \cup (IF IsPc(k) THEN {[op |-> "sort", i |-> i] : i \in 0..3} \cup {[op |-> "sortx"], [op |-> "sorty"]}
                        \cup {[op |-> "foreach", p |-> Flat(k, <<1, 1, -3>>)], [op |-> "roundtrip"]}
                        \cup {o \in {[op |-> o, P |-> L] : o \in {"append", "consume", "combine"}, L \in lists} : n + Len(o.P) <= MaxLen}
                        \cup (IF n > 0 THEN {[op |-> "text"]} ELSE {}) ELSE {})
  \cup (IF k = "pc3" THEN {[op |-> "sortz"]} ELSE {}) \cup (IF k = "f32" THEN {[op |-> "roundtrip"]} ELSE {})
Grow(k, op) == CASE op.op \in {"push", "pushd"} -> n + 1
                 [] op.op = "ins" -> IF (IF IsPc(k) THEN op.i <= n ELSE op.i < n) THEN n + 1 ELSE n
                 [] op.op \in {"append", "consume", "combine"} -> n + Len(op.P) [] OTHER -> n
Init == \E k \in Kinds : n = 0 /\ done = FALSE /\ hist = [fam |-> "cont", kind |-> k, dim |-> Dim(k), ops |-> <<>>]
Next == \/ /\ Len(hist.ops) < MaxOps
           /\ \E op \in Ops(hist.kind) : n' = Grow(hist.kind, op) /\ hist' = [hist EXCEPT !.ops = Append(@, op)]
           /\ UNCHANGED done
        \/ Len(hist.ops) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, hist>>
Inv == n \in 0..MaxLen
Dump == done => PrintT("@@" \o ToJson(hist))
=============================================================================
