------------------------------ MODULE Protocol -------------------------------
(* What a reader may report, call by call (C36): items, at most one error,     *)
(* then the end for good.  IsRun(s) decides a recorded sequence of answers.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Answers == {"item", "err", "end"}
Allowed(st, a) ==
  CASE st = "open" -> TRUE
    [] st = "done" -> a = "end"
After(st, a) == IF a = "item" THEN "open" ELSE "done"
RECURSIVE Accepts(_, _, _)
Accepts(st, s, i) == i > Len(s) \/ (Allowed(st, s[i]) /\ Accepts(After(st, s[i]), s, i + 1))
IsRun(s) == Accepts("open", s, 1)
=============================================================================
