------------------------------- MODULE PlyMC --------------------------------
(* Every supported header layout (and unsupported ones): the coordinates in    *)
(* any order with up to one further property before, between or after them,    *)
(* float and double mixed, faces plain or with properties around the indices,  *)
(* three encodings.  The body is written as the layout says for fixed points   *)
(* and faces, then optionally cut.                                             *)
(* Inv: whatever the layout, the reader returns exactly these points and       *)
(* faces; a cut file yields a prefix of them and an error.                     *)
EXTENDS Ply, Json
CONSTANTS Wide
VARIABLES enc, vp, fp, cut, kind, step
vars == <<enc, vp, fp, cut, kind, step>>
Perms3 == {<<"x", "y", "z">>, <<"x", "z", "y">>, <<"y", "x", "z">>, <<"y", "z", "x">>, <<"z", "x", "y">>, <<"z", "y", "x">>}
TypeMixes == {<<"float", "float", "float">>, <<"double", "float", "float">>, <<"float", "double", "double">>, <<"float64", "float32", "double">>}
Extras == {[t |-> t, name |-> "nx"] : t \in IF Wide THEN {"uchar", "short", "int", "double", "float"} ELSE {"uchar", "double"}}
Cs(perm, types) == [i \in 1..3 |-> [t |-> types[i], name |-> perm[i]]]
Ins(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
VPs == {Cs(p, t) : p \in Perms3, t \in TypeMixes}
       \cup {Ins(Cs(p, t), i, e) : p \in Perms3, t \in TypeMixes, i \in 0..3, e \in Extras}
Sc(t) == [list |-> FALSE, t |-> t, ct |-> "", name |-> "flags"]
Li(ct, it, n) == [list |-> TRUE, t |-> it, ct |-> ct, name |-> n]
FPs == {<<>>, <<Li("uchar", "int", "vertex_indices")>>, <<Li("uint8", "uint32", "vertex_index")>>, <<Li("int", "ushort", "vertex_index")>>, <<Sc("uchar"), Li("char", "short", "vertex_indices")>>,
        <<Li("uchar", "int", "vertex_indices"), Sc("double")>>, <<Sc("int"), Sc("float"), Li("ushort", "uchar", "vertex_indices"), Sc("short")>>,
        <<Li("uchar", "int", "vertex_indices"), Li("uchar", "float", "texcoord")>>, <<Li("uchar", "float", "texcoord"), Li("uchar", "int", "vertex_indices")>>,
        <<Sc("int")>>}
V == << <<1000, 0 - 2500, 125>>, <<3000, 4000, 5500>>, <<0, 7000, 9000>> >>
F == << <<0, 1, 2>>, <<2, 0, 1>> >>
C3 == [x |-> 1, y |-> 2, z |-> 3]
Ascii == enc = "ascii"
VLine(v) == [i \in 1..Len(vp) |-> IF vp[i].name \in Coord THEN <<"d", v[C3[vp[i].name]], "">> ELSE <<"i", 7, "">>]
VFields(v) == [i \in 1..Len(vp) |-> <<vp[i].t, IF vp[i].name \in Coord THEN v[C3[vp[i].name]] ELSE 7>>]
PropLine(q, f) == IF ~q.list THEN << <<"i", 9, "">> >> ELSE IF q.name \in Idx THEN << <<"i", 3, "">>, <<"i", f[1], "">>, <<"i", f[2], "">>, <<"i", f[3], "">> >> ELSE << <<"i", 1, "">>, <<"d", 500, "">> >>
PropFields(q, f) == IF ~q.list THEN << <<q.t, 9>> >> ELSE IF q.name \in Idx THEN << <<q.ct, 3>>, <<q.t, f[1]>>, <<q.t, f[2]>>, <<q.t, f[3]>> >> ELSE << <<q.ct, 1>>, <<q.t, 500>> >>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(SubSeq(ss, 2, Len(ss)))
FLine(f) == Cat([i \in 1..Len(fp) |-> PropLine(fp[i], f)])
FFields(f) == Cat([i \in 1..Len(fp) |-> PropFields(fp[i], f)])
Faces2 == IF fp = <<>> THEN <<>> ELSE F
BodyAscii == [i \in 1..3 |-> VLine(V[i])] \o [i \in 1..Len(Faces2) |-> FLine(F[i])]
BodyBin == Cat([i \in 1..3 |-> VFields(V[i])]) \o Cat([i \in 1..Len(Faces2) |-> FFields(F[i])])
Body == IF Ascii THEN BodyAscii ELSE BodyBin
S(x) == <<"s", 0, x>>
Header == << <<S("ply")>>, <<S("format"), S(enc), <<"d", 1000, "1.0">> >>, <<S("comment"), S("vertex")>>, <<S("element"), S("vertex"), <<"i", 3, "">> >> >>
          \o [i \in 1..Len(vp) |-> <<S("property"), S(vp[i].t), S(vp[i].name)>>]
          \o (IF fp = <<>> THEN <<>> ELSE << <<S("element"), S("face"), <<"i", 2, "">> >> >>)
          \o [i \in 1..Len(fp) |-> IF fp[i].list THEN <<S("property"), S("list"), S(fp[i].ct), S(fp[i].t), S(fp[i].name)>> ELSE <<S("property"), S(fp[i].t), S(fp[i].name)>>]
          \o << <<S("end_header")>> >>
All == IF Ascii THEN Len(Body) ELSE SumTo(FieldSizes(Body), Len(Body))
Left == CASE cut = "no" -> All [] cut = "one" -> All - 1 [] cut = "last" -> IF Ascii THEN All - 2 ELSE All - FieldSizes(Body)[Len(Body)][1] [] cut = "half" -> All \div 2 [] cut = "none" -> 0
Init == /\ enc \in {"ascii", "binary_little_endian", "binary_big_endian"} /\ vp \in VPs /\ fp \in FPs /\ cut \in {"no", "one", "last", "half", "none"} /\ kind = "ply" /\ step = 0
        /\ (Wide \/ cut = "no" \/ vp[1].t = "double")
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<enc, vp, fp, cut, kind>>
Want(faces) == <<IF faces THEN <<"r", 3, 2>> ELSE <<"r", 3>> >> \o [i \in 1..3 |-> <<"p">> \o V[i]] \o (IF faces THEN [i \in 1..2 |-> <<"f">> \o F[i]] ELSE <<>>)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Inv == LET p == PlyRun(Header, Len(Header), Body, Left, FALSE)
           m == PlyRun(Header, Len(Header), Body, Left, TRUE) IN
       /\ Prefix(p.items, Want(FALSE)) /\ (p.fin = "end" <=> p.items = Want(FALSE))
       /\ Prefix(m.items, Want(TRUE)) /\ (m.fin = "end" <=> m.items = Want(TRUE))
       /\ cut = "no" => p.items = Want(FALSE)
       /\ cut = "no" => (m.items = Want(TRUE) <=> HasMesh(HeadOf(Header)))
Dump == step = 1 => PrintT("@@" \o ToJson([fam |-> "io", fmt |-> "ply", enc |-> enc, lines |-> Header, headk |-> Len(Header), body |-> Body, len |-> Left]))
=============================================================================
