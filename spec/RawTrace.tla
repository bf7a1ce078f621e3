------------------------------ MODULE RawTrace -------------------------------
(* Readers on arbitrary bytes (C37): whatever the file, the answers are a run  *)
(* of Protocol; there are no more items than the size of the file allows       *)
(* (c.most, per reader) and every face is one of those written in the file     *)
(* (c.faces, for readers of text); loading reports success exactly when the    *)
(* iterator ended without an error and all faces are acceptable.               *)
EXTENDS Readers, Protocol, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
N == Len(Traces)
Chunks == 32
VARIABLES t, l
Init == t \in 1..(IF N < Chunks THEN N ELSE Chunks) /\ l = 0
Next == \/ l = 0 /\ l' = 1 /\ t' = t   \* (work for all of TLC's threads)
        \/ l = 1 /\ t + Chunks <= N /\ t' = t + Chunks /\ l' = l
IsErr(x) == x[1] = "err"
Data(items) == SelectSeq(items, LAMBDA x : x[1] # "r")
Answered(d) == [i \in 1..Len(d.items) |-> "item"] \o <<d.last[1]>> \o d.more
RunOk(c, d) ==
  /\ d.last[1] \in {"end", "err"} /\ IsRun(Answered(d))
  /\ Len(Data(d.items)) <= c.most
  /\ c.known => \A i \in 1..Len(d.items) : d.items[i][1] = "f" => \E j \in 1..Len(c.faces) : c.faces[j] = SubSeq(d.items[i], 2, 4)
  /\ c.lines > 0 => d.last[2] <= c.lines
\* coordinates of items may be beyond TLC's integers: everything but "ok" and counts is left out
LoadedOk(o, d) ==
  LET ok == o.r = "ok" IN
  /\ ok => d.last[1] = "end"
  /\ d.last[1] = "err" => ~ok
Conforms == l = 1 => 
  LET c == Traces[t]  o == c.obs IN
  /\ RunOk(c, o.it) /\ LoadedOk(o.load, o.it)
  /\ c.fmt \in {"obj", "off", "ply"} => RunOk(c, o.it2) /\ LoadedOk(o.load2, o.it2)
  /\ c.fmt = "stl" => LoadedOk(o.load2, o.it) /\ LoadedOk(o.load3, o.it)
=============================================================================
