--------------------------- MODULE HalfEdgeTrace ---------------------------
EXTENDS HalfEdge, IOUtils
CONSTANTS What
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Conforms == l = 1 => CASE What = "topology" -> TopologyOk(Traces[t])
              [] What = "incidence" -> IncidenceOk(Traces[t])
=============================================================================
