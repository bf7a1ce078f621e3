------------------------------ MODULE LongTrace ------------------------------
(* Recorded runs of the readers on long files: the machines of Readers,        *)
(* BinReaders and Ply run step by step along the file, and with each step the  *)
(* next recorded item and the next loaded point, face and normal have to be    *)
(* the machine's.  v: which reader of the format (1: iterator and loader, 2:   *)
(* points only; for STL 1: points merged, 2: not merged, 3: triplets).         *)
(* l: next line or record, j, np, nf: items, points, faces (facets) so far,    *)
(* b: bytes consumed.                                                          *)
EXTENDS Ply, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
VARIABLES t, v, l, j, np, nf, b, rs, lo, ph, good
vars == <<t, v, l, j, np, nf, b, rs, lo, ph, good>>
Versions(c) == CASE c.fmt = "stl" -> 1..3 [] c.fmt \in {"obj", "off", "ply"} -> 1..2 [] OTHER -> {1}
Kind(c) == IF c.fmt = "ply" THEN "ply" ELSE IF "units" \in DOMAIN c THEN "units" ELSE "lines"
Which(c, w) == IF c.fmt = "obj" /\ w = 2 THEN "objp" ELSE IF c.fmt = "off" /\ w = 2 THEN "offp" ELSE c.fmt
Seen(c) == IF c.fmt # "stl" /\ v = 2 THEN c.obs.it2 ELSE c.obs.it
Load(c) == CASE v = 1 -> c.obs.load [] v = 2 -> c.obs.load2 [] OTHER -> c.obs.load3
Begin(c, w) == CASE Kind(c) = "ply" -> [h |-> H0, o |-> 0] [] Kind(c) = "units" -> BStart(c.fmt) [] OTHER -> Start(Which(c, w))
Init == /\ t \in 1..N /\ v \in Versions(Traces[t]) /\ l = 1 /\ j = 0 /\ np = 0 /\ nf = 0 /\ b = 0
        /\ rs = Begin(Traces[t], v) /\ lo = TRUE /\ ph = "run" /\ good = TRUE
\* a step: [rs, out, fin, line, size]
Ended(fin, line) == [rs |-> rs, out |-> <<>>, fin |-> fin, line |-> line, size |-> 0]
Took(s, line, size) == [rs |-> s.rs, out |-> s.out, fin |-> s.fin, line |-> line, size |-> size]
LineStep(c) ==
  IF l > Len(c.lines) THEN Ended(IF Complete(Which(c, v), rs) THEN "end" ELSE "err", 0)
  ELSE Took(Step(Which(c, v), rs, c.lines[l]), l, 0)
UnitStep(c) ==
  IF Done(c.fmt, rs) THEN Ended("end", 0)
  ELSE IF l > Len(c.units) \/ b + c.units[l][1] > c.len THEN Ended("err", 0)
  ELSE Took(BStep(c.fmt, rs, c.units[l]), 0, c.units[l][1])
RECURSIVE SizeOf(_, _, _)
SizeOf(body, o, k) == IF k = 0 THEN 0 ELSE Sizes[body[o + 1][1]] + SizeOf(body, o + 1, k - 1)
PlyStep(c) ==
  LET h == rs.h
      n == h.nv + (IF v = 1 THEN h.nf ELSE 0)
      i == l - 1
      fields == IF i <= h.nv THEN Len(h.vp) ELSE Len(h.fp) + 3
      there == rs.o + fields <= Len(c.body) /\ b + SizeOf(c.body, rs.o, fields) <= c.len
      x == IF h.enc = "ascii" THEN IF i <= h.nv THEN AsciiVertex(h, c.body[i]) ELSE AsciiFace(h, c.body[i])
           ELSE IF i <= h.nv THEN BinVertex(h, c.body, Len(c.body), rs.o) ELSE BinFace(h, c.body, Len(c.body), rs.o) IN
  CASE l = 1 -> LET r == HeadFold(H0, c.lines, c.headk) IN
                IF r.h.ph = "err" THEN Ended("err", r.line)
                ELSE IF v = 1 /\ ~HasMesh(r.h) THEN Ended("err", 0)
                ELSE [rs |-> [h |-> r.h, o |-> 0], out |-> <<IF v = 1 THEN <<"r", r.h.nv, r.h.nf>> ELSE <<"r", r.h.nv>> >>,
                      fin |-> "", line |-> 0, size |-> 0]
    [] i > n -> Ended("end", 0)
    [] h.enc = "ascii" /\ i > c.len -> Ended("err", 0)
    [] h.enc # "ascii" /\ ~there -> Ended("err", 0)
    [] OTHER -> IF x = NoF THEN Ended("err", IF h.enc = "ascii" THEN c.headk + i ELSE 0)
                ELSE [rs |-> [rs EXCEPT !.o = @ + fields], out |-> <<x>>, fin |-> "", line |-> 0,
                      size |-> IF h.enc = "ascii" THEN 0 ELSE SizeOf(c.body, rs.o, fields)]
Move(c) == CASE Kind(c) = "lines" -> LineStep(c) [] Kind(c) = "units" -> UnitStep(c) [] OTHER -> PlyStep(c)
At1(s, i, x) == i <= Len(s) /\ s[i] = x
\* ---------------------------------------------------------------- the loaded data of one more item
FaceFine(f) == f[2] # f[3] /\ f[2] # f[4] /\ f[3] # f[4] /\ \A k \in 2..4 : f[k] < np
Known(p, n, x) == \E i \in 1..n : p[i] = x
\* the merged corners of a facet, one after the other: [n, ok, ids]
RECURSIVE Merge(_, _, _, _, _)
Merge(p, n, xs, ok, ids) ==
  IF xs = <<>> THEN [n |-> n, ok |-> ok, ids |-> ids]
  ELSE IF Known(p, n, xs[1])
       THEN Merge(p, n, SubSeq(xs, 2, Len(xs)), ok, Append(ids, (CHOOSE i \in 1..n : p[i] = xs[1]) - 1))
       ELSE IF At1(p, n + 1, xs[1]) THEN Merge(p, n + 1, SubSeq(xs, 2, Len(xs)), ok, Append(ids, n))
            ELSE [n |-> n, ok |-> FALSE, ids |-> <<0, 0, 0>>]
\* [ok, np, nf, lo] after item x
LoadStep(L, x) ==
  CASE x[1] = "p" -> [ok |-> L.r = "ok" => At1(L.p, np + 1, x), np |-> np + 1, nf |-> nf, lo |-> lo]
    [] x[1] = "f" -> [ok |-> (L.r = "ok" /\ FaceFine(x)) => At1(L.f, nf + 1, x), np |-> np, nf |-> nf + 1, lo |-> lo /\ FaceFine(x)]
    [] x[1] = "t" ->
         IF L.r # "ok" THEN [ok |-> TRUE, np |-> np, nf |-> nf, lo |-> lo]
         ELSE IF v = 1
              THEN LET m == Merge(L.p, np, <<x[2], x[3], x[4]>>, TRUE, <<>>) IN
                   [ok |-> m.ok /\ (Proper(x) => At1(L.f, nf + 1, <<"f">> \o m.ids) /\ At1(L.n, nf + 1, x[5])),
                    np |-> m.n, nf |-> IF Proper(x) THEN nf + 1 ELSE nf, lo |-> lo]
              ELSE [ok |-> /\ \A k \in 1..3 : At1(L.p, np + k, x[k + 1])
                           /\ At1(L.n, nf + 1, x[5])
                           /\ v = 2 => At1(L.f, nf + 1, <<"f", np, np + 1, np + 2>>),
                    np |-> np + 3, nf |-> nf + 1, lo |-> lo]
    [] OTHER -> [ok |-> TRUE, np |-> np, nf |-> nf, lo |-> lo]
LoadEnd(c, fin) ==
  LET L == Load(c) IN
  /\ L.r = IF fin = "end" /\ lo THEN "ok" ELSE "err"
  /\ L.r = "ok" => /\ Len(L.p) = np /\ Len(L.f) = (IF c.fmt = "stl" /\ v = 3 THEN 0 ELSE nf)
                   /\ Len(L.n) = (IF c.fmt = "stl" THEN nf ELSE 0)
AllEnd(s) == \A i \in 1..Len(s) : s[i] = "end"
Finish(c, s) ==
  LET d == Seen(c) IN
  /\ Len(d.items) = j /\ d.last[1] = s.fin /\ AllEnd(d.more)
  /\ s.fin = "err" /\ s.line > 0 => d.last[2] = s.line
  /\ LoadEnd(c, s.fin)
Next ==
  LET c == Traces[t]
      s == Move(c) IN
  /\ ph = "run" /\ good /\ UNCHANGED <<t, v>>
  /\ IF s.fin # ""
     THEN /\ ph' = "done" /\ good' = Finish(c, s) /\ UNCHANGED <<l, j, np, nf, b, rs, lo>>
     ELSE /\ l' = l + 1 /\ b' = b + s.size /\ rs' = s.rs /\ ph' = "run"
          /\ IF s.out = <<>> THEN UNCHANGED <<j, np, nf, lo, good>>
             ELSE LET q == LoadStep(Load(c), s.out[1]) IN
                  /\ j' = j + 1 /\ np' = q.np /\ nf' = q.nf /\ lo' = q.lo
                  /\ good' = (At1(Seen(c).items, j + 1, s.out[1]) /\ q.ok)
Conforms == good
==============================================================================
