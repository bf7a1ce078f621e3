----------------------------- MODULE ProtocolMC ------------------------------
EXTENDS Protocol
CONSTANT MaxCalls
VARIABLES st, hist
vars == <<st, hist>>
Init == st = "open" /\ hist = <<>>
Next == Len(hist) < MaxCalls /\ \E a \in Answers : Allowed(st, a) /\ st' = After(st, a) /\ hist' = Append(hist, a)
Count(a) == Cardinality({i \in 1..Len(hist) : hist[i] = a})
Inv == /\ Count("err") <= 1
       /\ \A i, j \in 1..Len(hist) : i < j /\ hist[i] # "item" => hist[j] = "end"
       /\ IsRun(hist)
\* nothing else is a run
Only == \A s \in [1..MaxCalls -> Answers] :
          IsRun(s) <=> \A i, j \in 1..MaxCalls : i < j /\ s[i] # "item" => s[j] = "end"
Dump == FALSE => PrintT(hist)
ASSUME Only
=============================================================================
