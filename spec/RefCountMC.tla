------------------------------ MODULE RefCountMC ------------------------------
EXTENDS RefCount, TLC
CONSTANTS NThreads, MaxCalls, Start
VARIABLES calls, deletes, adds, removes
all == <<vars, calls, deletes, adds, removes>>
Init == Init0([count |-> Start, threads |-> NThreads]) /\ calls = 0 /\ deletes = 0 /\ adds = 0 /\ removes = 0
Next ==
  \/ calls < MaxCalls /\ (\E t \in Threads, op \in {"add", "remove", "uncheck", "count"} : Call(t, op)) /\ calls' = calls + 1 /\ UNCHANGED <<deletes, adds, removes>>
  \/ \E t \in Threads : Lin(t) /\ adds' = adds + (IF count' > count THEN 1 ELSE 0) /\ removes' = removes + (IF count' < count THEN 1 ELSE 0) /\ UNCHANGED <<calls, deletes>>
  \/ (\E t \in Threads : Delete(t, count)) /\ deletes' = deletes + 1 /\ UNCHANGED <<calls, adds, removes>>
  \/ (\E t \in Threads : Return(t, pend[t].res)) /\ UNCHANGED <<calls, deletes, adds, removes>>
Spec == Init /\ [][Next]_all
Counts == count = Start + adds - removes /\ count >= 0
Once == deletes <= 1 /\ (deletes = 1 => ~active)
=============================================================================
