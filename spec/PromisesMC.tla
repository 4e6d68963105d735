------------------------------ MODULE PromisesMC ------------------------------
EXTENDS Promises, TLC
CONSTANTS NThreads, MaxCalls
VARIABLES calls, good, given       \* good: functions that succeeded; given: a value (not None) has been returned
all == <<vars, calls, good, given>>
Init == Init0([threads |-> NThreads]) /\ calls = 0 /\ good = 0 /\ given = FALSE
Next ==
  \/ calls < MaxCalls /\ (\E t \in Threads, op \in {"value", "opt", "has"} : Call(t, op)) /\ calls' = calls + 1 /\ UNCHANGED <<good, given>>
  \/ (\E t \in Threads : Start(t)) /\ UNCHANGED <<calls, good, given>>
  \/ \E t \in Threads, v \in {None, Raised, 5, 6} : Finish(t, v) /\ good' = good + (IF v = Raised THEN 0 ELSE 1) /\ UNCHANGED <<calls, given>>
  \/ (\E t \in Threads : Lin(t)) /\ UNCHANGED <<calls, good, given>>
  \/ \E t \in Threads : Return(t, pend[t].res) /\ given' = (given \/ pend[t].res \in {5, 6}) /\ UNCHANGED <<calls, good>>
Spec == Init /\ [][Next]_all
Once == good <= 1 /\ Cardinality({t \in Threads : pend[t].st \in {"running", "got"}}) <= 1
Same == [][made => (made' /\ val' = val)]_all
Kept == given => val \in {5, 6}
=============================================================================
