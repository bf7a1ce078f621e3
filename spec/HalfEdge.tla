------------------------------ MODULE HalfEdge ------------------------------
(* C03/C04: the connectivity of a triangle mesh.  Edge e belongs to face      *)
(* e \div 3; it runs from its tail to the tail of the next edge of the face.  *)
(* Everything the queries answer is defined from the face list alone.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* ---- the definition of the connectivity (used by the model and by trace validation)
NEdges(F) == 3 * Len(F)
E(F) == 0..(NEdges(F) - 1)
FaceOf(e) == e \div 3
NextE(e) == IF e % 3 = 2 THEN e - 2 ELSE e + 1
PrevE(e) == IF e % 3 = 0 THEN e + 2 ELSE e - 1
TailV(F, e) == F[FaceOf(e) + 1][(e % 3) + 1]
HeadV(F, e) == TailV(F, NextE(e))
\* the edges running in the opposite direction
Reverse(F, e) == {x \in E(F) : TailV(F, x) = HeadV(F, e) /\ HeadV(F, x) = TailV(F, e)}
\* orientable manifold: no directed edge occurs twice
Manifold(F) == \A a, b \in E(F) : (TailV(F, a) = TailV(F, b) /\ HeadV(F, a) = HeadV(F, b)) => a = b
Orig(F, v) == {e \in E(F) : TailV(F, e) = v}
Ending(F, v) == {e \in E(F) : HeadV(F, e) = v}
FacesOf(F, v) == {FaceOf(e) : e \in Orig(F, v)}

RECURSIVE SortedSet(_)
SortedSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSet(S \ {m})
\* sorted sequence of a multiset given as a function from keys to values
RECURSIVE SortSeq2(_, _)
Insert(s, x) == LET k == Cardinality({i \in 1..Len(s) : s[i] <= x}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortSeq2(s, acc) == IF s = <<>> THEN acc ELSE SortSeq2(SubSeq(s, 2, Len(s)), Insert(acc, s[1]))
Sorted(s) == SortSeq2(s, <<>>)

\* ---- what the recorded answers have to be, query by query
EdgeOk(F, manifold, obs, e) ==
  LET o == obs.edges[e + 1] IN
  IF e \in E(F)
  THEN /\ o.ens
       /\ o.tail = TailV(F, e) /\ o.stail = o.tail
       /\ o.shead = HeadV(F, e)
       /\ o.next = NextE(e) /\ o.snext = o.next
       /\ o.prev = PrevE(e) /\ o.sprev = o.prev
       /\ o.face = FaceOf(e) /\ o.sface = o.face
       /\ IF Reverse(F, e) = {} THEN o.twin = -1 ELSE o.twin \in Reverse(F, e)
       /\ o.stwin = o.twin
       /\ manifold /\ o.twin # -1 => obs.edges[o.twin + 1].twin = e
  ELSE ~o.ens /\ {o.tail, o.next, o.prev, o.twin, o.face, o.stail, o.shead, o.snext, o.sprev, o.stwin, o.sface} = {-1}

BadV == "IncorrectVertexID"
VertOk(F, nv, o, v) ==
  LET end == Ending(F, v)
  IN IF v < nv
     THEN /\ o.ens
          /\ o.orig = SortedSet(Orig(F, v)) /\ o.sorig = o.orig
          /\ o.end = SortedSet(end) /\ o.send = o.end
          /\ o.all = SortedSet(Orig(F, v) \cup end) /\ o.sall = o.all
          /\ o.faces = SortedSet(FacesOf(F, v)) /\ o.sfaces = o.faces
     ELSE /\ ~o.ens
          /\ {o.orig, o.end, o.all, o.faces, o.sorig, o.send, o.sall, o.sfaces} = {BadV}

\* neighbours over an edge are the faces of the twins; neighbours over a vertex are all faces at the corners
FaceOk(F, c, f) ==
  LET obs == c.obs
      o == obs.faces[f + 1]
      pre == {c.sent : x \in 1..c.vnpre} IN
  IF f < Len(F)
  THEN /\ o.ens
       /\ o.edges = <<3 * f, 3 * f + 1, 3 * f + 2>>
       /\ o.ids = F[f + 1]
       /\ LET tw == SelectSeq(<<obs.edges[3*f+1].twin, obs.edges[3*f+2].twin, obs.edges[3*f+3].twin>>, LAMBDA x : x # -1)
          IN o.en = Sorted([i \in 1..Len(tw) |-> FaceOf(tw[i])])
       /\ LET vn == UNION {FacesOf(F, F[f + 1][k]) : k \in 1..3} IN
          /\ {o.vn[i] : i \in 1..Len(o.vn)} = vn \cup pre
          /\ \A i, j \in 1..Len(o.vn) : i < j => o.vn[i] < o.vn[j] \/ {o.vn[i], o.vn[j]} \cap pre # {}
          /\ \A x \in vn \ pre : Cardinality({i \in 1..Len(o.vn) : o.vn[i] = x}) = 1
  ELSE ~o.ens /\ o.edges = <<>> /\ o.ids = <<>> /\ o.en = "IncorrectFaceID" /\ o.vn = "IncorrectFaceID"

TopologyOk(c) == LET m == TLCEval(Manifold(c.F)) IN
                 /\ c.obs.far     \* ids far beyond the ends are absent, too
                 /\ c.obs.ne = NEdges(c.F) /\ c.obs.nf = Len(c.F) /\ c.obs.nv = c.nv
                 /\ Len(c.obs.edges) = NEdges(c.F) + 1
                 /\ \A e \in 0..NEdges(c.F) : EdgeOk(c.F, m, c.obs, e)
\* the queries start with what the caller's list holds already (c.sent, for the neighbours over vertices c.vnpre times); of meshes
\* of very many vertices only those in c.vq are asked for
Asked(c) == IF "vq" \in DOMAIN c THEN c.vq ELSE [v \in 1..(c.nv + 1) |-> v - 1]
IncidenceOk(c) == /\ c.obs.far /\ Len(c.obs.verts) = Len(Asked(c)) /\ Len(c.obs.faces) = Len(c.F) + 1
                  /\ \A i \in 1..Len(Asked(c)) : VertOk(c.F, c.nv, c.obs.verts[i], Asked(c)[i])
                  /\ \A f \in 0..Len(c.F) : FaceOk(c.F, c, f)
=============================================================================
