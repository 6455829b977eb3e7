------------------------------- MODULE Slots --------------------------------
(* The numbered handles of the deprecated interface: at most four, the       *)
(* smallest free number is given out.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Numbers == 1..4
Dicts == {"a", "b"}
VARIABLES vSlot,        \* number -> dictionary or "" when free
          vAnswer,      \* answer of the last call
          vCalls        \* calls so far (not part of the state)
vars == <<vSlot, vAnswer, vCalls>>
View == vSlot
Free == {n \in Numbers : vSlot[n] = ""}
Init == vSlot = [n \in Numbers |-> ""] /\ vAnswer = 0 /\ vCalls = <<>>
Open(d) == /\ vCalls' = Append(vCalls, <<"init", d>>)
           /\ IF Free = {} \/ d \in {"missing", "null"} THEN vAnswer' = 0 /\ UNCHANGED vSlot
              ELSE LET n == CHOOSE n \in Free : \A m \in Free : n <= m IN vSlot' = [vSlot EXCEPT ![n] = d] /\ vAnswer' = n
Close(n) == /\ vCalls' = Append(vCalls, <<"term", n>>)
            /\ IF n \in Numbers \ Free THEN vSlot' = [vSlot EXCEPT ![n] = ""] /\ vAnswer' = 1 ELSE vAnswer' = 0 /\ UNCHANGED vSlot
Next == (\E d \in Dicts \cup {"missing", "null"} : Open(d)) \/ (\E n \in -1..5 : Close(n))
\* a handle that is open keeps its dictionary until it is terminated; a new number was free before
Stable == [][\A n \in Numbers : vSlot[n] # "" => vSlot'[n] \in {vSlot[n], ""}]_vars
OneAtATime == [][Cardinality({n \in Numbers : vSlot[n] # vSlot'[n]}) <= 1]_vars
Bounded == Cardinality(Numbers \ Free) <= 4
Emit == PrintT(<<"HISTORY", ToJson(vCalls')>>)
=============================================================================
