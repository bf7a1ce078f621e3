------------------------------- MODULE Values -------------------------------
(* C45: when two values are one.  A value is a kind and the sequence of its   *)
(* components, each a tuple of numbers; the number 99 stands for -0, which is *)
(* the same number as 0.  Equality is equality of all components; hashing and *)
(* sets follow it; the order goes by the distance of places from the origin   *)
(* and by the value of ids and numbers, component by component.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
Norm(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v[i]) |-> IF v[i][j] = 99 THEN 0 ELSE v[i][j]]]
Same(a, b) == Norm(a) = Norm(b)
Boxes == {"box2", "box3", "circle", "sphere", "fbox2", "fbox3", "fcircle", "fsphere"}
Lines == {"line2", "line3", "ray2", "ray3"}
Places == {"p2", "p3", "bb2", "bb3", "pc2", "pc3", "poly2", "poly3"}
Counted == {"face", "vid", "fid", "eid", "sid", "rgb"}
Dirs == {"n2", "n3"}
Trees == {"kd", "oct"}
Segs == {"seg2", "seg3"}
Nets == {"mesh", "he"}
Signed == {"pos", "non"}
Ordered == Boxes \cup Lines \cup Places \cup Counted \cup Dirs \cup {"plane", "mesh", "he", "kd", "oct"}
Hashed == Ordered \cup Segs \cup Signed
Unhashed == {"f32", "m3", "m4", "view", "comp"}
\* how the components of a kind are ordered: places by distance, numbers by value, anything else is open
By(kind, i) == IF kind \in Places \/ (kind \in Boxes \cup Lines \cup {"plane"} /\ i = 1) THEN "place"
               ELSE IF kind \in Counted THEN "number" ELSE "open"
Far(c) == FoldLeft(LAMBDA s, x : s + x * x, 0, c)
Key(kind, i, c) == CASE By(kind, i) = "place" -> Far(c) [] By(kind, i) = "number" -> c[1] [] OTHER -> 0
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Open == 2
RECURSIVE Scan(_, _, _, _)
Scan(kind, a, b, i) ==
  IF i > Len(a) THEN (IF Len(a) < Len(b) THEN -1 ELSE 0)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] = b[i] THEN Scan(kind, a, b, i + 1)
  ELSE IF Key(kind, i, a[i]) # Key(kind, i, b[i]) THEN Sign(Key(kind, i, a[i]) - Key(kind, i, b[i]))
  ELSE Open
Cmp(kind, a, b) == Scan(kind, Norm(a), Norm(b), 1)
\* a tree does not have to show in which order its points came: equal points, open
SameBag(a, b) == Len(a) = Len(b) /\ \E f \in [1..Len(a) -> 1..Len(b)] : (\A i, j \in 1..Len(a) : i # j => f[i] # f[j]) /\ \A i \in 1..Len(a) : a[i] = b[f[i]]
EqOpen(kind, a, b) == \/ kind = "kd" /\ ~Same(a, b) /\ SameBag(Norm(a), Norm(b))
                      \/ kind = "oct" /\ ~Same(a, b) /\ {Norm(a)[i] : i \in 1..Len(a)} = {Norm(b)[i] : i \in 1..Len(b)}
\* ---- what is recorded about a list of values of one kind
Ok(c) == LET o == c.obs  V == c.vals  K == c.kind  n == Len(c.vals)  D == 1..n IN
  /\ o.clone
  /\ \A i, j \in D :
       /\ EqOpen(K, V[i], V[j]) \/ (o.eq[i][j] = Same(V[i], V[j]))
       /\ o.eq[i][j] = o.eq[j][i]
       /\ K \in Hashed /\ o.eq[i][j] => o.hash[i][j]
  /\ K \in Hashed => /\ o.set = Cardinality({CHOOSE k \in D : o.eq[k][i] /\ \A m \in D : o.eq[m][i] => k <= m : i \in D})
  /\ K \in Ordered =>
       /\ \A i, j \in D : /\ o.cmp[i][j] = 0 - o.cmp[j][i]
                          /\ LET w == Cmp(K, V[i], V[j]) IN w = Open \/ (o.eq[i][j] /\ o.cmp[i][j] = 0) \/ (~o.eq[i][j] /\ (w = o.cmp[i][j] \/ EqOpen(K, V[i], V[j])))
       /\ \A i, j, k \in D : o.cmp[i][j] <= 0 /\ o.cmp[j][k] <= 0 => o.cmp[i][k] <= 0
       /\ Len(o.sort) = n /\ {o.sort[i] + 1 : i \in D} = D
       /\ \A i \in 1..(n - 1) : o.cmp[o.sort[i] + 1][o.sort[i + 1] + 1] <= 0
  /\ K \in Signed => \A i, j \in D : o.less[i][j] = (Norm(V[i])[1][1] < Norm(V[j])[1][1])
=============================================================================
