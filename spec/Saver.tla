-------------------------------- MODULE Saver --------------------------------
(* Saving (C35, C39).  What a saver writes for a cloud or mesh, as lines of    *)
(* words (Readers, Ply), and the machine that pushes bytes into a destination. *)
EXTENDS Ply
I(n) == <<"i", n, "">>
S(s) == <<"s", 0, s>>
Formats == {"xy", "xyz", "ply", "stl"}
P3(p) == <<I(p[1]), I(p[2]), I(p[3])>>
Seq1(n, Op(_)) == [i \in 1..n |-> Op(i)]
PlyHead(nP, nF, colored) ==
  << <<S("ply")>>, <<S("format"), S("ascii"), <<"d", 1000, "1.0">> >>, <<S("comment"), S("Created")>>, <<S("element"), S("vertex"), I(nP)>>,
     <<S("property"), S("float"), S("x")>>, <<S("property"), S("float"), S("y")>>, <<S("property"), S("float"), S("z")>> >>
  \o (IF colored THEN << <<S("property"), S("uchar"), S("red")>>, <<S("property"), S("uchar"), S("green")>>, <<S("property"), S("uchar"), S("blue")>> >> ELSE <<>>)
  \o << <<S("element"), S("face"), I(nF)>>, <<S("property"), S("list"), S("uchar"), S("uint"), S("vertex_indices")>>, <<S("end_header")>> >>
PlyBody(Q, F, C) ==
  Seq1(Len(Q), LAMBDA i : P3(Q[i]) \o (IF C = <<>> THEN <<>> ELSE P3(C[i])))
  \o Seq1(Len(F), LAMBDA i : <<I(3)>> \o P3(F[i]))
RECURSIVE StlBody(_, _, _)
StlBody(Q, F, i) ==
  IF i > Len(F) THEN << <<S("endsolid")>> >>
  ELSE << <<S("facet"), S("normal"), I(0), I(0), I(1)>>, <<S("outer"), S("loop")>> >>
       \o [k \in 1..3 |-> <<S("vertex")>> \o P3(Q[F[i][k] + 1])]
       \o << <<S("endloop")>>, <<S("endfacet")>> >> \o StlBody(Q, F, i + 1)
Lines(how, Q, F) ==
  CASE how = "xy" -> Seq1(Len(Q), LAMBDA i : <<I(Q[i][1]), I(Q[i][2])>>)
    [] how = "xyz" -> Seq1(Len(Q), LAMBDA i : P3(Q[i]))
    [] how = "stl" -> << <<S("solid")>> >> \o StlBody(Q, F, 1)
MPoint(p) == <<"p", 1000 * p[1], 1000 * p[2], 1000 * p[3]>>
ItemsOf(how, Q, F) ==
  CASE how = "xy" -> Seq1(Len(Q), LAMBDA i : <<"p", 1000 * Q[i][1], 1000 * Q[i][2]>>)
    [] how = "xyz" -> Seq1(Len(Q), LAMBDA i : MPoint(Q[i]))
    [] how = "ply" -> << <<"r", Len(Q), Len(F)>> >> \o Seq1(Len(Q), LAMBDA i : MPoint(Q[i])) \o Seq1(Len(F), LAMBDA i : <<"f">> \o F[i])
    [] how = "stl" -> Seq1(Len(F), LAMBDA i : <<"t", MPoint(Q[F[i][1] + 1]), MPoint(Q[F[i][2] + 1]), MPoint(Q[F[i][3] + 1]), <<"p", 0, 0, 1000>> >>)
=============================================================================
