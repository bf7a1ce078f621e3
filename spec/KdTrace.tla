------------------------------ MODULE KdTrace ------------------------------
(* Recorded builds and queries of the real kd-tree checked against KdTree.tla. *)
EXTENDS KdTree, Json, IOUtils
CONSTANT What
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Pre(n) == [i \in 1..n |-> <<7, 7, 7>>]
\* appended to what the caller's list held
Appends(n, r, s) == Len(r) >= n /\ SubSeq(r, 1, n) = Pre(n) /\ SameBag(SubSeq(r, n + 1, Len(r)), s)
Conforms == l = 1 => LET c == Traces[t]
                o == c.obs IN
  /\ Len(c.P) = 0 => o.built = "err"
  /\ Len(c.P) > 0 =>
       /\ o.built = "ok"
       /\ What = "nearest" =>
            /\ o.size = Len(c.P)
            /\ SameBag(o.pts, c.P)
            /\ \A i \in 1..Len(c.K) : /\ IsNearest(c.P, c.K[i].q, 1, o.near[i])
                                      /\ IsNearest(c.P, c.K[i].q, c.K[i].k, o.kn[i])
       /\ What = "range" =>
            /\ \A i \in 1..Len(c.S) : Appends(c.pre, o.sph[i], InSphere(c.P, c.S[i].q, c.S[i].r))
            /\ \A i \in 1..Len(c.B) : Appends(c.pre, o.box[i], InBox(c.P, c.B[i].q, c.B[i].h))
=============================================================================
