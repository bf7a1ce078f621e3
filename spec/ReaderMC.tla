------------------------------ MODULE ReaderMC ------------------------------
(* All files of at most MaxLines lines from the pool of a format, each after   *)
(* the lines of Pre, read by the machine of Readers line by line.  Inv: no     *)
(* item leaves a machine that ended; counts announced bound the items; the     *)
(* line-by-line run equals the fold used for validation.                       *)
EXTENDS Readers, Json
CONSTANTS Fmt, MaxLines
VARIABLES file, rs, items, fin, done
vars == <<file, rs, items, fin, done>>
I(n) == <<"i", n, "">>
D(n) == <<"d", n, "">>
S(s) == <<"s", 0, s>>
C == <<"c", 0, "">>
Pool ==
  CASE Fmt = "xy" -> {<<I(1), I(2)>>, <<D(-1500), D(250)>>, <<I(7), D(500), S("x")>>, <<I(3)>>, <<S("x"), I(3)>>, <<I(3), S("x")>>, <<>>}
    [] Fmt = "xyz" -> {<<I(1), I(2), I(3)>>, <<D(-1500), D(250), I(-7)>>, <<I(7), D(500), I(1), S("x")>>, <<I(3), I(4)>>, <<I(1), I(2), S("x")>>, <<>>}
    [] Fmt = "pts" -> {<<I(0)>>, <<I(1)>>, <<I(2)>>, <<I(-1)>>, <<I(1), I(2), I(3)>>, <<D(1500), I(2), D(-250), I(9)>>, <<I(1), S("x"), I(3)>>, <<>>}
    [] Fmt = "ptx" -> {<<I(0)>>, <<I(1)>>, <<I(2)>>, <<I(2), I(4), I(-6)>>, <<I(2), I(4), I(-6), I(1)>>, <<I(2), S("x"), I(3)>>}
    [] Fmt = "gcode" -> {<<S("G1"), <<"X", 1000, "">>, <<"Y", 2000, "">>>>, <<S("G2"), <<"Z", -500, "">>>>, <<S("G90")>>, <<S("G91")>>, <<S("G91"), C>>,
                        <<S("G92"), <<"X", 0, "">>, C>>, <<S("M104"), <<"X", 5000, "">>>>, <<S("G1"), S("X?")>>, <<S("G1"), C, <<"X", 7000, "">>>>, <<>>}
    [] Fmt = "obj" -> {<<S("v"), I(1), I(2), I(3)>>, <<S("v"), D(500), D(-250), I(0)>>, <<S("f"), I(1), I(2), I(3)>>, <<S("f"), <<"r", 2, "/1/4">>, <<"r", 3, "//7">>, <<"r", 1, "/">>>>,
                      <<S("f"), I(1), I(0), I(2)>>, <<S("vn"), I(1), I(2), I(3)>>, <<S("v"), I(1), S("x"), I(3)>>, <<S("f"), I(1), I(2)>>, <<C>>}
    [] Fmt = "off" -> {<<I(0), I(0), I(0)>>, <<I(1), I(0), I(0)>>, <<I(3), I(1), I(0)>>, <<I(2)>>, <<I(1), I(2), I(3)>>, <<D(500), I(0), I(-4)>>, <<I(3), I(0), I(1), I(2)>>,
                      <<I(4), I(0), I(1), I(2)>>, <<C>>, <<S("x")>>}
    [] Fmt = "stl" -> {<<S("facet"), S("normal"), I(0), I(0), I(1)>>, <<S("facet"), S("normal"), S("x")>>, <<S("outer"), S("loop")>>, <<S("vertex"), I(1), I(2), I(3)>>,
                      <<S("vertex"), I(0), D(500), I(0)>>, <<S("vertex"), I(1), I(2)>>, <<S("endloop")>>, <<S("endfacet")>>, <<S("endsolid")>>, <<>>}
Mat(a, b) == << <<I(a), I(0), I(0), I(b)>>, <<I(0), I(1), I(1), I(0)>>, <<I(0), I(-1), I(2), I(5)>>, <<I(0), I(0), I(0), I(1)>> >>
Id4 == << <<I(1), I(0), I(0), I(0)>>, <<I(0), I(1), I(0), I(0)>>, <<I(0), I(0), I(1), I(0)>>, <<I(0), I(0), I(0), I(1)>> >>
Scan == << <<I(0), I(0), I(0)>>, <<I(1), I(0), I(0)>>, <<I(0), I(1), I(0)>>, <<I(0), I(0), I(1)>> >>
Facet(a) == << <<S("facet"), S("normal"), I(0), I(0), I(1)>>, <<S("outer"), S("loop")>>, <<S("vertex"), I(a), I(0), I(0)>>,
               <<S("vertex"), I(1), I(2), I(3)>>, <<S("vertex"), I(0), D(500), I(0)>>, <<S("endloop")>>, <<S("endfacet")>> >>
\* files do not have to start from nothing: a prefix brings the machine into the interesting states
Pre ==
  CASE Fmt = "ptx" -> {<<>>, << <<I(1)>>, <<I(2)>> >> \o Scan, << <<I(1)>>, <<I(2)>> >> \o Scan \o Mat(2, 3), << <<I(1)>>, <<I(1)>> >> \o Scan \o Id4,
                       << <<I(0)>>, <<I(5)>> >> \o Scan \o Mat(1, 1),
                       << <<I(1)>>, <<I(1)>> >> \o Scan \o Mat(2, 3) \o << <<I(1), I(2), I(3)>>, <<I(2)>>, <<I(1)>> >> \o Scan \o Id4}
    [] Fmt = "off" -> {<<>>, << <<S("OFF")>> >>, << <<S("OFF")>>, <<I(3), I(1), I(0)>>, <<I(0), I(0), I(0)>>, <<I(1), I(0), I(0)>> >>}
    [] Fmt = "stl" -> {<< <<S("solid"), S("a")>> >>, << <<S("solid")>> >> \o Facet(1), << <<S("solid")>> >> \o Facet(0) \o Facet(1) \o SubSeq(Facet(0), 1, 4),
                       << <<S("solid")>> >> \o SubSeq(Facet(4), 1, 6)}
    [] OTHER -> {<<>>}
RECURSIVE Feed(_, _)
Feed(r, lines) == Run(Fmt, lines, Len(lines))
Init == /\ file \in Pre
        /\ LET r == Run(Fmt, file, Len(file)) IN rs = r.rs /\ items = r.items /\ fin = r.fin
        /\ done = FALSE
NPre == CHOOSE k \in 0..Len(file) : SubSeq(file, 1, k) \in Pre /\ \A j \in k + 1..Len(file) : SubSeq(file, 1, j) \notin Pre
Line == /\ ~done /\ fin = "" /\ Len(file) - NPre < MaxLines
        /\ \E line \in Pool :
             LET s == Step(Fmt, rs, line) IN
             /\ file' = Append(file, line) /\ rs' = s.rs /\ items' = items \o s.out /\ fin' = s.fin
        /\ UNCHANGED done
End == ~done /\ done' = TRUE /\ UNCHANGED <<file, rs, items, fin>>
Next == Line \/ End
Announced(k) == IF k = "p" THEN Cardinality({i \in 1..Len(items) : items[i][1] = "p"}) ELSE Cardinality({i \in 1..Len(items) : items[i][1] = "f"})
Inv == /\ Len(items) <= Len(file)
       /\ Run(Fmt, file, Len(file)).items = items
       /\ Run(Fmt, file, Len(file)).fin = fin
       /\ Fmt = "off" /\ items # <<>> => Announced("p") <= items[1][2] /\ Announced("f") <= items[1][3]
       /\ Fmt = "pts" /\ items # <<>> => rs.n >= 0
\* reading on changes nothing after the end and only extends what was read before
Grows == [][/\ SubSeq(items', 1, Len(items)) = items /\ (fin # "" => UNCHANGED <<items, fin>>)]_vars
Dump == done => PrintT("@@" \o ToJson([fam |-> "io", fmt |-> Fmt, lines |-> file]))
=============================================================================
