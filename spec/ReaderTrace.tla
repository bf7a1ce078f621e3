---------------------------- MODULE ReaderTrace -----------------------------
(* Recorded reader runs checked against the machines of Readers.               *)
(* c.lines: the file, c.it ..: what the real reader did.  c.fail (optional):   *)
(* the source fails at that byte, c.ends[i] is the number of bytes up to and   *)
(* including line i (plus its line end).                                       *)
EXTENDS Readers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
AllEnd(s) == \A i \in 1..Len(s) : s[i] = "end"
\* d: a run of the iterator; the error has to name the line unless the machine leaves it open
Matches(d, e) ==
  /\ d.items = e.items /\ AllEnd(d.more)
  /\ d.last[1] = e.fin
  /\ e.fin = "err" /\ e.line > 0 => d.last[2] = e.line
\* the source failed after k complete lines: everything up to there, then one error (none is needed once all is there)
UpTo(fmt, c, k) ==
  LET r == Run(fmt, c.lines, k) IN
  IF r.fin # "" THEN {r}
  ELSE {[r EXCEPT !.fin = "err"]} \cup (IF fmt \in {"off", "offp"} /\ Complete(fmt, r.rs) THEN {[r EXCEPT !.fin = "end"]} ELSE {})
NComplete(c) == Cardinality({i \in 1..Len(c.ends) : c.ends[i] <= c.fail})
Expected(fmt, c) == IF "fail" \in DOMAIN c /\ c.fail >= 0 THEN UpTo(fmt, c, NComplete(c)) ELSE {Whole(fmt, c.lines)}
Loaded(o, e) ==
  /\ o.r = IF LoadOk(e.items, e.fin) THEN "ok" ELSE "err"
  /\ o.r = "ok" => o.p = Points(e.items) /\ o.f = Faces(e.items)
LoadedMesh(o, e, m) ==
  /\ o.r = IF e.fin = "end" THEN "ok" ELSE "err"
  /\ o.r = "ok" => o.p = m.p /\ o.f = m.f /\ o.n = m.n
Two(fmt) == CASE fmt = "obj" -> "objp" [] fmt = "off" -> "offp" [] OTHER -> ""
Conforms == l = 1 => 
  LET c == Traces[t]
      o == c.obs IN
  \E e \in Expected(c.fmt, c) :
    /\ Matches(o.it, e)
    /\ IF c.fmt = "stl"
       THEN /\ LoadedMesh(o.load, e, UniqueMesh(e.items)) /\ LoadedMesh(o.load2, e, DupedMesh(e.items))
            /\ LoadedMesh(o.load3, e, [DupedMesh(e.items) EXCEPT !.f = <<>>])
       ELSE Loaded(o.load, e)
    /\ Two(c.fmt) # "" => \E e2 \in Expected(Two(c.fmt), c) : Matches(o.it2, e2) /\ Loaded(o.load2, e2)
=============================================================================
