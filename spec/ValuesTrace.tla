---------------------------- MODULE ValuesTrace ----------------------------
(* C45: what the real code answers about lists of values, against Values.     *)
EXTENDS Values, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
Conforms == l = 1 => Ok(Traces[t])
=============================================================================
