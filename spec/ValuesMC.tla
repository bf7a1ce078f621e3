------------------------------ MODULE ValuesMC ------------------------------
(* Every triple of values of a small pool of every kind.  Inv: the definitions *)
(* make an equivalence and an order.                                           *)
EXTENDS Values
CONSTANTS Kinds
VARIABLES kind, vals
vars == <<kind, vals>>
P2 == {<<0, 0>>, <<99, 0>>, <<1, 2>>, <<2, 1>>, <<-1, 3>>, <<3, 99>>}
P3 == {<<0, 0, 0>>, <<0, 99, 0>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<2, 3, -1>>, <<0, 0, 3>>}
D2 == {<<1, 0>>, <<1, 99>>, <<-1, 0>>, <<3, 4>>}
D3 == {<<1, 0, 0>>, <<1, 99, 0>>, <<0, 0, -1>>, <<1, 2, 2>>}
Ids == {0, 1, 2, 300, 70000}
Seqs(P) == {<<>>} \cup {<<p>> : p \in P} \cup {<<p, q>> : p \in {<<0, 0>>, <<1, 2>>, <<0, 0, 0>>, <<1, 2, 2>>} \cap P, q \in P}
Pool(k) ==
  CASE k = "p2" -> {<<p>> : p \in P2} [] k = "p3" -> {<<p>> : p \in P3}
    [] k = "n2" -> {<<p>> : p \in D2} [] k = "n3" -> {<<p>> : p \in D3}
    [] k \in {"box2", "fbox2"} -> {<<p, s>> : p \in {<<0, 0>>, <<99, 0>>, <<2, 1>>, <<-1, 3>>}, s \in {<<1, 2>>, <<2, 1>>}}
    [] k \in {"circle", "fcircle"} -> {<<p, s>> : p \in {<<0, 0>>, <<99, 0>>, <<2, 1>>, <<1, 2>>}, s \in {<<1>>, <<3>>}}
    [] k \in {"box3", "fbox3"} -> {<<p, s>> : p \in {<<0, 0, 0>>, <<0, 0, 99>>, <<2, 3, -1>>}, s \in {<<1, 2, 3>>, <<1, 2, 4>>}}
    [] k \in {"sphere", "fsphere"} -> {<<p, s>> : p \in {<<0, 0, 0>>, <<0, 99, 0>>, <<2, 3, -1>>, <<1, 2, 2>>}, s \in {<<1>>, <<3>>}}
    [] k = "bb2" -> {<<p, q>> : p \in {<<0, 0>>, <<99, 0>>, <<-1, -2>>}, q \in {<<2, 3>>, <<3, 2>>, <<4, 4>>}}
    [] k = "bb3" -> {<<p, q>> : p \in {<<0, 0, 0>>, <<0, 0, 99>>, <<-1, -2, 0>>}, q \in {<<2, 3, 1>>, <<3, 2, 1>>, <<4, 4, 4>>}}
    [] k = "seg2" -> {<<p, q>> : p \in {<<0, 0>>, <<99, 0>>, <<1, 2>>}, q \in {<<1, 2>>, <<0, 0>>, <<0, 99>>}}
    [] k = "seg3" -> {<<p, q>> : p \in {<<0, 0, 0>>, <<0, 0, 99>>, <<1, 2, 2>>}, q \in {<<1, 2, 2>>, <<0, 0, 0>>}}
    [] k \in {"line2", "ray2"} -> {<<p, q>> : p \in {<<0, 0>>, <<99, 0>>, <<1, 2>>}, q \in D2}
    [] k \in {"line3", "ray3"} -> {<<p, q>> : p \in {<<0, 0, 0>>, <<0, 99, 0>>, <<1, 2, 2>>}, q \in D3}
    [] k = "plane" -> {<<p, q, r>> : p \in {<<0, 0, 0>>, <<1, 2, 2>>}, q \in {<<1, 0, 0>>, <<1, 99, 0>>}, r \in {<<0, 1, 0>>, <<0, 0, 1>>}}
    [] k \in {"pc2", "poly2"} -> Seqs({<<0, 0>>, <<99, 0>>, <<1, 2>>, <<2, 1>>})
    [] k \in {"pc3", "poly3", "f32", "kd", "oct"} -> Seqs({<<0, 0, 0>>, <<99, 0, 0>>, <<1, 2, 2>>, <<2, 1, -2>>}) \ (IF k \in {"kd", "oct"} THEN {<<>>} ELSE {})
    [] k \in {"vid", "fid", "eid", "sid"} -> {<<<<i>>>> : i \in Ids}
    [] k = "face" -> {<<<<a>>, <<b>>, <<c>>>> : a \in {0, 3}, b \in {1, 300}, c \in {2, 5}}
    [] k = "rgb" -> {<<<<a>>, <<b>>, <<c>>>> : a \in {0, 255}, b \in {1, 200}, c \in {2, 5}}
    [] k = "pos" -> {<<<<i>>>> : i \in {1, 2, 5, 70000}} [] k = "non" -> {<<<<i>>>> : i \in {0, 99, 1, 2, 5}}
    [] k = "m3" -> {<<<<1, 0, a, b, 1, 0, 0, c, 1>>>> : a \in {0, 99, 2}, b \in {0, 1}, c \in {0, 3}}
    [] k = "m4" -> {<<<<1, 0, a, b, 0, 1, 0, 0, 0, 0, 1, 0, 0, c, 0, 1>>>> : a \in {0, 99, 2}, b \in {0, 1}, c \in {0, 3}}
    [] k = "view" -> {<<>>, <<<<>>>>, <<<<0>>>>, <<<<1>>>>, <<<<0, 1>>>>, <<<<0, 300>>>>}
    [] k = "comp" -> {<<<<0, 0, 0>>, <<4, 4, 4>>>>, <<<<0, 0, 0>>, <<4, 4, 4>>, <<2, 0, 0>>>>, <<<<0, 0, 0>>, <<4, 4, 4>>, <<0, 0, 2>>>>, <<<<99, 0, 0>>, <<4, 4, 4>>, <<2, 0, 0>>>>}
    [] k = "he" -> {<<<<n>>>> \o f : n \in {3, 4}, f \in {<<>>, <<<<0, 1, 2>>>>, <<<<1, 2, 0>>>>, <<<<0, 1, 2>>, <<2, 1, 0>>>>}}
    [] k = "mesh" -> {<<<<3>>, <<0, 0, 0>>, p, <<4, 4, 4>>>> \o f : p \in {<<1, 2, 2>>, <<2, 1, 2>>}, f \in {<<>>, <<<<0, 1, 2>>>>, <<<<1, 2, 0>>>>, <<<<0, 1, 2>>, <<2, 1, 0>>>>}}
Init == \E k \in Kinds : kind = k /\ \E a, b, c \in Pool(k) : vals = <<a, b, c>>
Next == FALSE /\ UNCHANGED vars
Inv == LET a == vals[1] b == vals[2] c == vals[3] IN
       /\ Same(a, a) /\ Same(a, b) = Same(b, a) /\ (Same(a, b) /\ Same(b, c) => Same(a, c))
       /\ Same(a, b) => Cmp(kind, a, b) = 0
       /\ Cmp(kind, a, b) # Open => Cmp(kind, a, b) = 0 - Cmp(kind, b, a)
       /\ Cmp(kind, a, b) = -1 /\ Cmp(kind, b, c) = -1 => Cmp(kind, a, c) = -1
Dump == PrintT("@@" \o ToJson([fam |-> "values", kind |-> kind, vals |-> vals]))
=============================================================================
