----------------------------- MODULE BinReaders -----------------------------
(* Readers of binary files (C28, C33, C34) as machines over a sequence of      *)
(* records.  A file is a sequence of units <<size, value, ...>>; len is the    *)
(* number of bytes it holds, so a truncated file ends within some unit.        *)
(*   STL: <<80>>, <<4, facets>>, <<50, n.., a.., b.., c..>>                    *)
(*   PSL: <<512, passes>>, then <<64, lines>> per pass, <<64, points>> per     *)
(*        line, <<12, x, y, z>> per point                                      *)
(*   LAS: <<size, major, minor, format, record length, legacy count, count,    *)
(*        sx, sy, sz, ox, oy, oz>>, <<gap>>, <<record length, x, y, z>>..      *)
(* Coordinates in 1/1000, LAS record values and counts as stored.              *)
EXTENDS Readers
RECURSIVE SumTo(_, _)
SumTo(units, k) == IF k = 0 THEN 0 ELSE units[k][1] + SumTo(units, k - 1)
\* number of units that are complete
RECURSIVE AvailFrom(_, _, _)
AvailFrom(units, i, left) == IF i > Len(units) \/ units[i][1] > left THEN i - 1 ELSE AvailFrom(units, i + 1, left - units[i][1])
Avail(units, len) == AvailFrom(units, 1, len)

BStart(fmt) == [ph |-> "head", n |-> 0, m |-> 0, k |-> 0, q |-> <<>>]
MaxFacets == 1000000000
PV(u) == <<"p", u[2], u[3], u[4]>>
StlBin(rs, u) ==
  CASE rs.ph = "head" -> Go([rs EXCEPT !.ph = "count"])
    [] rs.ph = "count" -> IF u[2] > MaxFacets THEN Fail(rs) ELSE Emit([rs EXCEPT !.ph = "facets", !.n = u[2]], <<"r", u[2]>>)
    [] OTHER -> LET p(i) == <<"p", u[i], u[i + 1], u[i + 2]>> IN
                Emit([rs EXCEPT !.n = @ - 1], <<"t", p(5), p(8), p(11), p(2)>>)
\* n passes, m lines, k points are left
PslStep(rs, u) ==
  IF rs.ph = "head" THEN Go([rs EXCEPT !.ph = "body", !.n = u[2]])
  ELSE IF rs.k > 0 THEN Emit([rs EXCEPT !.k = @ - 1], PV(u))
  ELSE IF rs.m > 0 THEN Go([rs EXCEPT !.m = @ - 1, !.k = u[2]])
  ELSE Go([rs EXCEPT !.n = @ - 1, !.m = u[2]])
\* size of the header of a version, records
HeadSize(minor) == IF minor <= 2 THEN 227 ELSE IF minor = 3 THEN 235 ELSE 375
LasCount(u) == IF u[3] < 4 THEN u[6] ELSE IF u[6] # 0 THEN u[6] ELSE u[7]
LasStep(rs, u) ==
  CASE rs.ph = "head" ->
         IF u[1] < HeadSize(u[3]) \/ u[2] > 1 \/ u[3] > 4 \/ u[4] > 10 \/ u[5] < 12 THEN Fail(rs)
         ELSE Emit([rs EXCEPT !.ph = "gap", !.n = LasCount(u), !.q = SubSeq(u, 8, 13)], <<"r", LasCount(u)>>)
    [] rs.ph = "gap" -> Go([rs EXCEPT !.ph = "points"])
    [] OTHER -> Emit([rs EXCEPT !.n = @ - 1], <<"p", rs.q[4] + u[2] * rs.q[1], rs.q[5] + u[3] * rs.q[2], rs.q[6] + u[4] * rs.q[3]>>)
BStep(fmt, rs, u) == CASE fmt = "stl" -> StlBin(rs, u) [] fmt = "psl" -> PslStep(rs, u) [] fmt = "las" -> LasStep(rs, u)
Done(fmt, rs) ==
  CASE fmt = "stl" -> rs.ph = "facets" /\ rs.n = 0
    [] fmt = "psl" -> rs.ph = "body" /\ rs.k <= 0 /\ rs.m <= 0 /\ rs.n <= 0
    [] fmt = "las" -> rs.ph \in {"gap", "points"} /\ rs.n = 0
RECURSIVE BFold(_, _, _, _, _, _)
BFold(fmt, units, k, i, rs, items) ==
  IF Done(fmt, rs) THEN [items |-> items, fin |-> "end", line |-> 0]
  ELSE IF i > k THEN [items |-> items, fin |-> "err", line |-> 0]
  ELSE LET s == BStep(fmt, rs, units[i]) IN
       IF s.fin # "" THEN [items |-> items, fin |-> s.fin, line |-> 0]
       ELSE BFold(fmt, units, k, i + 1, s.rs, items \o s.out)
BRun(fmt, units, len) == BFold(fmt, units, Avail(units, len), 1, BStart(fmt), <<>>)
=============================================================================
