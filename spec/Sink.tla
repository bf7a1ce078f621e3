-------------------------------- MODULE Sink ---------------------------------
(* A saver pushing pieces into a destination that takes part of what it is     *)
(* given, is interrupted, takes nothing, or fails (C39).  got: bytes taken,    *)
(* piece/off: where the saver is.                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxPieces, MaxLen, MaxAccept
VARIABLES pieces, failAt, zero, piece, off, got, fin, script, intr
vars == <<pieces, failAt, zero, piece, off, got, fin, script, intr>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))
Total == Sum(pieces)
Init == /\ pieces \in UNION {[1..n -> 1..MaxLen] : n \in 0..MaxPieces}
        /\ failAt \in 0..(MaxPieces * MaxLen) /\ zero \in BOOLEAN
        /\ piece = 1 /\ off = 0 /\ got = 0 /\ fin = "" /\ script = <<>> /\ intr = 0
Min2(a, b) == IF a < b THEN a ELSE b
Take(k) == /\ fin = "" /\ piece <= Len(pieces) /\ got < failAt
           /\ LET n == Min2(Min2(k, pieces[piece] - off), failAt - got) IN
              /\ got' = got + n
              /\ IF off + n = pieces[piece] THEN piece' = piece + 1 /\ off' = 0 ELSE piece' = piece /\ off' = off + n
           /\ script' = Append(script, k) /\ UNCHANGED <<pieces, failAt, zero, fin, intr>>
Again == fin = "" /\ piece <= Len(pieces) /\ intr < 1 /\ intr' = 1 /\ UNCHANGED <<pieces, failAt, zero, piece, off, got, fin, script>>
Refuse == fin = "" /\ piece <= Len(pieces) /\ got = failAt /\ fin' = "err" /\ UNCHANGED <<pieces, failAt, zero, piece, off, got, script, intr>>
Finish == fin = "" /\ piece > Len(pieces) /\ fin' = "ok" /\ UNCHANGED <<pieces, failAt, zero, piece, off, got, script, intr>>
Next == (\E k \in 1..MaxAccept : Take(k)) \/ Again \/ Refuse \/ Finish
Inv == /\ fin = "ok" => got = Total
       /\ fin = "err" => got = failAt /\ failAt < Total
       /\ got = Sum(SubSeq(pieces, 1, piece - 1)) + off
Settles == [][fin # "" => UNCHANGED vars]_vars
Dump == (fin = "ok" /\ failAt = MaxPieces * MaxLen) => PrintT("@@" \o ToJson([accept |-> script, intr |-> intr, zero |-> zero]))
=============================================================================
