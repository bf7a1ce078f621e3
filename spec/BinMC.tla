------------------------------- MODULE BinMC --------------------------------
(* Binary files built record by record from what the machine of the format     *)
(* expects next, then cut at any byte around a record border.  Inv: what a     *)
(* truncated file yields is a prefix of what the whole file yields, and it     *)
(* only ends without error if nothing announced is missing.                    *)
EXTENDS BinReaders, Json
CONSTANTS Fmt, MaxUnits
VARIABLES units, rs, items, fin, len, done
vars == <<units, rs, items, fin, len, done>>
Tri(a) == <<0, 0, 1000, a, 0, 0, 0, 1000, 0, 125, 0, a>>
Counts == {0, 1, 2}
Heads ==
  CASE Fmt = "stl" -> {<<80>>}
    [] Fmt = "psl" -> {<<512, n>> : n \in {0 - 1, 0, 1, 2}}
    [] Fmt = "las" -> {<<s, 1, v, f, r, a, b, 1000, 500, 2000, 0, 250, 0 - 1000>> :
                        s \in {227, 235, 375}, v \in {0, 2, 3, 4, 5}, f \in {0, 3, 10, 11}, r \in {10, 12, 20, 34}, a \in {0, 1, 2}, b \in {0, 2}}
                      \cup {<<375, j, v, 1, 28, 2, 2, 1000, 500, 2000, 0, 250, 0 - 1000>> : j \in {2, 3, 4, 255}, v \in {0, 1, 2, 4}} \* versions of the future
LasSane(u) == \* counts that mean something: a legacy count is repeated by the large one or replaces it
  (u[3] = 4 /\ u[6] # 0 => u[7] = u[6] \/ u[7] = 0) /\ (u[1] = HeadSize(u[3]) \/ u[2] > 1 \/ (u[3] > 4 /\ u[1] = 375) \/ u[1] < HeadSize(u[3]))
Nexts ==
  CASE Fmt = "stl" /\ rs.ph = "count" -> {<<4, n>> : n \in Counts \cup {3, 1000000001}}
    [] Fmt = "stl" -> {<<50>> \o Tri(a) : a \in {0, 1000}}
    [] Fmt = "psl" /\ rs.k > 0 -> {<<12, x, 0 - 125, 3000>> : x \in {0, 1000}}
    [] Fmt = "psl" -> {<<64, n>> : n \in Counts \cup {0 - 1}}
    [] Fmt = "las" /\ rs.ph = "gap" -> {<<g>> : g \in {0, 5}}
    [] Fmt = "las" -> {<<units[1][5], x, 2, 0 - 3>> : x \in {0, 7}}
Init == \E u \in Heads : (Fmt = "las" => LasSane(u)) /\ units = <<u>> /\ LET s == BStep(Fmt, BStart(Fmt), u) IN rs = s.rs /\ items = s.out /\ fin = s.fin /\ len = 0 /\ done = FALSE
Grow == /\ ~done /\ fin = "" /\ Len(units) < MaxUnits /\ ~Done(Fmt, rs)
        /\ \E u \in Nexts : LET s == BStep(Fmt, rs, u) IN units' = Append(units, u) /\ rs' = s.rs /\ items' = items \o s.out /\ fin' = s.fin
        /\ UNCHANGED <<len, done>>
Total == SumTo(units, Len(units))
Cuts == {Total} \cup {Total - 1} \cup {Total + 7} \cup (IF Len(units) > 1 THEN {Total - units[Len(units)][1]} ELSE {0, Total \div 2})
End == ~done /\ done' = TRUE /\ len' \in {x \in Cuts : x >= 0} /\ UNCHANGED <<units, rs, items, fin>>
Next == Grow \/ End
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Inv == /\ done => LET r == BRun(Fmt, units, len)  w == BRun(Fmt, units, Total) IN
                  /\ Prefix(r.items, w.items)
                  /\ r.fin = "end" => Done(Fmt, rs) /\ w = r
       /\ BRun(Fmt, units, Total).items = items
Dump == done => PrintT("@@" \o ToJson([fam |-> "io", fmt |-> Fmt, units |-> units, len |-> len]))
=============================================================================
