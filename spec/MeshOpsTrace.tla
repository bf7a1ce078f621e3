---------------------------- MODULE MeshOpsTrace ----------------------------
EXTENDS MeshOps, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Conforms == l = 1 => LET c == Traces[t] IN
  CASE c.fam = "heal" -> c.obs.err = "" /\ HealOk(c.V, c.F, c.obs)
    [] c.fam = "clusterv" -> ClusterOk(c.V, c.F, c.size, c.obs)
    [] c.fam = "unify" -> c.obs.err = "" /\ UnifyOk(c.V, c.F, c.base, c.obs)
    [] c.fam = "subdiv" -> c.obs.err = "" /\ SubdivOk(c.V, c.F, c.obs)
=============================================================================
