------------------------------ MODULE BinTrace ------------------------------
(* Recorded runs of the readers of binary files and of PLY files.              *)
EXTENDS Ply, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
MinOf(a, b) == IF a < b THEN a ELSE b
AllEnd(s) == \A i \in 1..Len(s) : s[i] = "end"
Matches(d, e) ==
  /\ d.items = e.items /\ AllEnd(d.more) /\ d.last[1] = e.fin
  /\ e.fin = "err" /\ e.line > 0 => d.last[2] = e.line
LoadedAs(o, ok, p, f) == o.r = (IF ok THEN "ok" ELSE "err") /\ (ok => o.p = p /\ o.f = f)
Loaded(o, e) == LoadedAs(o, LoadOk(e.items, e.fin), Points(e.items), Faces(e.items))
LoadedMesh(o, e, m) == LoadedAs(o, e.fin = "end", m.p, m.f) /\ (e.fin = "end" => o.n = m.n)
\* what is there before the source fails: header lines, body lines or bytes (c.ends as in ReaderTrace)
Fails(c) == c.fail >= 0
LineCount(c, a, b) == Cardinality({i \in a..b : c.ends[i] <= c.fail})
HeadThere(c) == IF Fails(c) THEN LineCount(c, 1, c.headk) ELSE c.headk
BodyThere(c) ==
  IF ~Fails(c) THEN c.len
  ELSE IF HeadThere(c) < c.headk THEN 0
  ELSE IF c.enc = "ascii" THEN LineCount(c, c.headk + 1, Len(c.ends)) ELSE MinOf(c.len, c.fail - c.ends[c.headk])
LenThere(c) == IF Fails(c) THEN MinOf(c.len, c.fail) ELSE c.len
PlyOk(c) ==
  LET m == PlyRun(c.lines, HeadThere(c), c.body, BodyThere(c), TRUE)
      p == PlyRun(c.lines, HeadThere(c), c.body, BodyThere(c), FALSE) IN
  /\ Matches(c.obs.it, m) /\ Loaded(c.obs.load, m)
  /\ Matches(c.obs.it2, p) /\ Loaded(c.obs.load2, p)
  /\ LET e == IF p.mesh THEN m ELSE p
         ok == LoadOk(e.items, e.fin) IN
     /\ c.obs.either.r = IF ok THEN "ok" ELSE "err"
     /\ ok => /\ c.obs.either.kind = IF p.mesh THEN "mesh" ELSE "points"
              /\ c.obs.either.f = Faces(e.items)
              /\ IF p.mesh THEN c.obs.either.p = Points(e.items) ELSE c.obs.either.q = Points(e.items)
Conforms == l = 1 => 
  LET c == Traces[t] IN
  IF c.fmt = "ply" THEN PlyOk(c)
  ELSE LET e == BRun(c.fmt, c.units, LenThere(c)) IN
       /\ Matches(c.obs.it, e)
       /\ IF c.fmt = "stl"
          THEN LoadedMesh(c.obs.load, e, UniqueMesh(e.items)) /\ LoadedMesh(c.obs.load2, e, DupedMesh(e.items))
               /\ LoadedMesh(c.obs.load3, e, [DupedMesh(e.items) EXCEPT !.f = <<>>])
          ELSE Loaded(c.obs.load, e)
=============================================================================
