------------------------------- MODULE Source --------------------------------
(* A byte source and the assembly of lines from it (C38).  The file has N      *)
(* bytes, Breaks are the positions of line ends.  The source hands over chunks *)
(* of any size, is interrupted now and then, and may fail at a position.  The  *)
(* reader keeps the bytes of the line it has begun; a line is complete with    *)
(* its line end or, for the last one, with the end of the file.                *)
(*   lines: completed lines as <<first byte, last byte>>                       *)
(*   script: sizes of the chunks so far, intr: interruptions so far            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxChunk, MaxIntr
NoFail == N + 1
VARIABLES breaks, failAt, pos, begun, lines, fin, script, intr
vars == <<breaks, failAt, pos, begun, lines, fin, script, intr>>
Init == /\ breaks \in SUBSET (1..N) /\ failAt \in 0..NoFail
        /\ pos = 0 /\ begun = 0 /\ lines = <<>> /\ fin = "" /\ script = <<>> /\ intr = <<>>
Limit == IF failAt < N THEN failAt ELSE N
\* lines completed within the bytes a+1..b when a line has begun after byte s
RECURSIVE Cut(_, _, _)
Cut(s, a, b) ==
  LET B == {x \in breaks : a < x /\ x <= b} IN
  IF B = {} THEN <<>> ELSE LET x == CHOOSE y \in B : \A z \in B : y <= z IN << <<s + 1, x>> >> \o Cut(x, x, b)
LastBreak(s, a, b) == LET B == {x \in breaks : a < x /\ x <= b} IN IF B = {} THEN s ELSE CHOOSE y \in B : \A z \in B : y >= z
Deliver(k) ==
  /\ fin = "" /\ pos + k <= Limit
  /\ pos' = pos + k /\ lines' = lines \o Cut(begun, pos, pos + k) /\ begun' = LastBreak(begun, pos, pos + k)
  /\ script' = Append(script, k) /\ UNCHANGED <<breaks, failAt, fin, intr>>
Interrupt == /\ fin = "" /\ Len(intr) < MaxIntr /\ intr' = Append(intr, pos)
             /\ UNCHANGED <<breaks, failAt, pos, begun, lines, fin, script>>
Fault == /\ fin = "" /\ pos = failAt /\ fin' = "err" /\ UNCHANGED <<breaks, failAt, pos, begun, lines, script, intr>>
EndOfFile == /\ fin = "" /\ pos = N /\ failAt = NoFail /\ fin' = "end"
             /\ lines' = IF begun < N THEN Append(lines, <<begun + 1, N>>) ELSE lines
             /\ UNCHANGED <<breaks, failAt, pos, begun, script, intr>>
Next == (\E k \in 1..MaxChunk : Deliver(k)) \/ Interrupt \/ Fault \/ EndOfFile
\* the lines depend only on how many bytes have arrived, not on how they were split
WholeLines(p) == Cut(0, 0, p)
Inv == /\ fin # "end" => lines = WholeLines(pos)
       /\ fin = "end" => lines = WholeLines(N) \o (IF begun < N THEN << <<begun + 1, N>> >> ELSE <<>>)
       /\ fin = "err" => lines = WholeLines(failAt)
Settles == [][fin # "" => UNCHANGED vars]_vars
\* schedules for the real readers: only the chunk sizes and interruptions matter, so one file layout is enough
Dump == (fin = "end" /\ breaks = {}) => PrintT("@@" \o ToJson([script |-> script, intr |-> intr]))
=============================================================================
