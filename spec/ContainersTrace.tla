--------------------------- MODULE ContainersTrace ---------------------------
(* Walks every recorded history step by step: obs[l] = [r, d, n, some] after    *)
(* operation l must be a result the specification allows from obs[l-1].d.      *)
EXTENDS Containers, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l < Len(Traces[t].ops) /\ l' = l + 1 /\ t' = t
        \/ l = Len(Traces[t].ops) /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = 0
Conforms == l > 0 =>
  LET c == Traces[t]
      prev == IF l = 1 THEN <<>> ELSE c.obs[l - 1].d
      o == c.obs[l] IN
  /\ l <= Len(c.obs)
  /\ Step(c.kind, c.dim, prev, c.ops[l], o.d, o.r)
  /\ o.n = Len(o.d)
  /\ o.oob = FALSE
=============================================================================
