-------------------------------- MODULE Ring ---------------------------------
(* voikkospell with several threads: the input is cut into blocks, each      *)
(* checked by a worker of its own; at most Threads workers exist, in a ring. *)
(* Whatever the order in which the workers finish, the results are printed   *)
(* in the order of the input, and only a worker that exists is waited for.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Blocks

VARIABLES vSlot,      \* the block a slot of the ring works on, 0 if none
          vDone,      \* blocks whose worker has finished
          vNext,      \* the slot for the next block
          vRead,      \* blocks read so far
          vOut,       \* blocks printed, in order
          vOrder      \* the order in which the workers finished
vars == <<vSlot, vDone, vNext, vRead, vOut, vOrder>>

Slots == 0..(Threads - 1)
Used == Cardinality({i \in Slots : vSlot[i] # 0})
\* the oldest worker
Oldest == (vNext + Threads - Used) % Threads

Init == /\ vSlot = [i \in Slots |-> 0] /\ vDone = {} /\ vNext = 0 /\ vRead = 0 /\ vOut = <<>> /\ vOrder = <<>>

Start == /\ vRead < Blocks /\ Used < Threads
         /\ vRead' = vRead + 1
         /\ vSlot' = [vSlot EXCEPT ![vNext] = vRead + 1]
         /\ vNext' = (vNext + 1) % Threads
         /\ UNCHANGED <<vDone, vOut, vOrder>>
Work(i) == /\ vSlot[i] # 0 /\ vSlot[i] \notin vDone
           /\ vDone' = vDone \cup {vSlot[i]} /\ vOrder' = Append(vOrder, vSlot[i])
           /\ UNCHANGED <<vSlot, vNext, vRead, vOut>>
\* waits for the oldest worker, when there is no free slot or no more input
Join == /\ Used > 0 /\ (Used = Threads \/ vRead = Blocks)
        /\ vSlot[Oldest] \in vDone
        /\ vOut' = Append(vOut, vSlot[Oldest])
        /\ vSlot' = [vSlot EXCEPT ![Oldest] = 0]
        /\ UNCHANGED <<vDone, vNext, vRead, vOrder>>
Finished == vRead = Blocks /\ Used = 0
Stop == Finished /\ UNCHANGED vars
Next == Start \/ (\E i \in Slots : Work(i)) \/ Join \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Join) /\ \A i \in Slots : WF_vars(Work(i))

InOrder == vOut = [i \in 1..Len(vOut) |-> i]
JoinsWorkers == Used > 0 => vSlot[Oldest] # 0
NothingLost == Finished => Len(vOut) = Blocks
Ends == <>(Len(vOut) = Blocks)
\* the orders of finishing, for replay
Dump == IF Finished THEN PrintT(<<"ORDER", Threads, vOrder>>) ELSE TRUE
=============================================================================
