-------------------------------- MODULE Par ----------------------------------
(* Threads with a handle each.  A call is not atomic: it begins by writing   *)
(* its working storage (the state of the search, flags, buffers), and ends   *)
(* by answering from it and from the options of the handle.  When working    *)
(* storage and options belong to the handle, every interleaving gives the    *)
(* answers of the thread alone; storage shared between handles would not.    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Threads, Words, Calls, Shared

VARIABLES vStore,     \* working storage of each handle
          vOpt,       \* an option of each handle
          vAsked,     \* the word of the running call of a thread, 0 if none
          vLog        \* answers and what they should be
vars == <<vStore, vOpt, vAsked, vLog>>

Cell(t) == IF Shared THEN 1 ELSE t
Answer(w, o) == <<w, o>>
Init == /\ vStore = [t \in Threads |-> 0] /\ vOpt = [t \in Threads |-> 0]
        /\ vAsked = [t \in Threads |-> 0] /\ vLog = [t \in Threads |-> <<>>]
Begin(t, w) == /\ vAsked[t] = 0 /\ Len(vLog[t]) < Calls
               /\ vAsked' = [vAsked EXCEPT ![t] = w]
               /\ vStore' = [vStore EXCEPT ![Cell(t)] = w]
               /\ UNCHANGED <<vOpt, vLog>>
End(t) == /\ vAsked[t] # 0
          /\ vLog' = [vLog EXCEPT ![t] = Append(@, [got |-> Answer(vStore[Cell(t)], vOpt[t]), alone |-> Answer(vAsked[t], vOpt[t])])]
          /\ vAsked' = [vAsked EXCEPT ![t] = 0]
          /\ UNCHANGED <<vStore, vOpt>>
SetOption(t) == /\ vAsked[t] = 0 /\ Len(vLog[t]) < Calls
                /\ vOpt' = [vOpt EXCEPT ![t] = 1 - @] /\ UNCHANGED <<vStore, vAsked, vLog>>
Next == \E t \in Threads : End(t) \/ SetOption(t) \/ \E w \in Words : Begin(t, w)
Spec == Init /\ [][Next]_vars
AsAlone == \A t \in Threads : \A i \in 1..Len(vLog[t]) : vLog[t][i].got = vLog[t][i].alone
=============================================================================
