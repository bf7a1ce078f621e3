------------------------------ MODULE Containers ------------------------------
(* C14: a point collection is a sequence of points; what each operation does   *)
(* to the sequence.  Sorting is relational: the observed order is adopted if   *)
(* it is a sorted permutation (that judgement is made by the harness-          *)
(* independent operator Sorts, see ContainersTrace).                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
PermOf(a, b) == Len(a) = Len(b) /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
                  Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
SortedBy(s, d) == \A i \in 1..(Len(s) - 1) : s[i][d] <= s[i + 1][d]
Put(s, i, x) == [s EXCEPT ![i + 1] = x]
InsertAt0(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
\* point clouds accept an insertion at the end, vectors and deques do not
InsOk(kind, s, i) == IF kind \in {"pc2", "pc3"} THEN i <= Len(s) ELSE i < Len(s)
Move(s, v) == [i \in 1..Len(s) |-> [d \in 1..3 |-> s[i][d] + v[d]]]
Scale(s) == s
\* allowed results <<new sequence, outcome>> of an operation, given the observed sequence o
Step(kind, dim, s, op, o, r) ==
  CASE op.op = "push" -> o = Append(s, op.p) /\ r = "ok"
    [] op.op = "pushd" -> o = Append(s, op.p) /\ r = "ok"
    [] op.op = "ins" -> IF InsOk(kind, s, op.i) THEN o = InsertAt0(s, op.i, op.p) /\ r = "ok" ELSE o = s /\ r = "err"
    [] op.op = "setd" -> o = Put(s, op.i, op.p) /\ r = "ok"
    [] op.op = "idx" -> o = Put(s, op.i, op.p) /\ r = "ok"
    [] op.op = "reserve" -> o = s /\ r = "ok"
    [] op.op = "append" -> o = s \o op.P /\ r = "ok"
    [] op.op = "consume" -> o = s \o op.P /\ r = "ok"
    [] op.op = "combine" -> o = s \o op.P /\ r = "ok"
    [] op.op = "move" -> o = Move(s, op.p) /\ r = "ok"
    [] op.op = "foreach" -> o = Move(s, op.p) /\ r = "ok"
    [] op.op = "sort" -> IF op.i < dim THEN PermOf(s, o) /\ SortedBy(o, op.i + 1) /\ r = "ok" ELSE o = s /\ r = "err"
    [] op.op = "sortx" -> PermOf(s, o) /\ SortedBy(o, 1) /\ r = "ok"
    [] op.op = "sorty" -> PermOf(s, o) /\ SortedBy(o, 2) /\ r = "ok"
    [] op.op = "sortz" -> PermOf(s, o) /\ SortedBy(o, 3) /\ r = "ok"
    [] op.op = "roundtrip" -> o = s /\ r = "ok"     \* into Vec and back
    [] op.op = "clone" -> o = s /\ r = "ok"
    [] op.op = "text" -> o = s /\ r = "ok"          \* to_str and parse
=============================================================================
