---------------------------- MODULE OutlierTrace ----------------------------
(* C12: the outlier filter built from points P, distance r and count m allows *)
(* exactly the queries with at least m points of P not farther than r.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Near(c, q) == Cardinality({i \in 1..Len(c.P) : D2(c.P[i], q) <= c.r * c.r})
Conforms == l = 1 => LET c == Traces[t] IN
  /\ Len(c.obs) = Len(c.Q)
  /\ \A i \in 1..Len(c.Q) : c.obs[i] <=> Near(c, c.Q[i]) >= c.m
=============================================================================
