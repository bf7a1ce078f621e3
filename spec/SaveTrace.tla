----------------------------- MODULE SaveTrace -------------------------------
(* Recorded saves.  c.P: points as bit patterns (texts), c.P32 the same after  *)
(* rounding to single precision, c.F faces, c.C colours.  obs.ok: saved into a *)
(* perfect destination, obs.ok2: into the scripted one (c.accept, c.fail ..).  *)
EXTENDS Readers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Colored(h) == h \in {"ply-ac", "ply-bc32", "ply-bc64"}
Stored(c) == IF c.how \in {"ply-b32", "ply-bc32"} THEN c.P32 ELSE c.P
Accepted(c) == Colored(c.how) => Len(c.C) = Len(c.P)
\* the facets a mesh is made of, with the normals the saver gives them
FacetsOf(c) == [i \in 1..Len(c.F) |-> <<"t", c.P[c.F[i][1] + 1], c.P[c.F[i][2] + 1], c.P[c.F[i][3] + 1], c.obs.normals[i]>>]
Is(o, m) == o.r = "ok" /\ o.p = m.p /\ o.f = m.f /\ o.n = m.n
LoadedBack(c) ==
  LET o == c.obs  fs == [i \in 1..Len(c.F) |-> <<"f", c.F[i][1], c.F[i][2], c.F[i][3]>>] IN
  CASE c.how \in {"xy", "xyz"} -> Is(o.load, [p |-> c.P, f |-> <<>>, n |-> <<>>])
    [] c.how = "stl" -> /\ Is(o.load, UniqueMesh(FacetsOf(c))) /\ Is(o.load2, DupedMesh(FacetsOf(c)))
                        /\ Is(o.load3, [DupedMesh(FacetsOf(c)) EXCEPT !.f = <<>>])
    [] OTHER -> /\ Is(o.load, [p |-> Stored(c), f |-> fs, n |-> <<>>]) /\ Is(o.load2, [p |-> Stored(c), f |-> <<>>, n |-> <<>>])
                /\ Colored(c.how) => o.rgb = c.C
SaveOk(c) == LET o == c.obs IN o.ok = Accepted(c) /\ (o.ok => LoadedBack(c))
\* complete or reported
SinkOk(c) ==
  LET o == c.obs  breaks == c.fail >= 0 /\ c.fail < o.total IN
  /\ o.prefix
  /\ o.ok2 = (o.ok /\ ~breaks)
  /\ o.ok2 => o.got = o.total
  /\ breaks => o.got <= c.fail
Conforms == l = 1 => LET c == Traces[t] IN SaveOk(c) /\ SinkOk(c)
=============================================================================
