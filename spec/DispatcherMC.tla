----------------------------- MODULE DispatcherMC -----------------------------
EXTENDS Dispatcher, TLC
CONSTANTS NThreads, MaxCalls, Interval, MaxTime
VARIABLES calls, now, served       \* served: <<call, run>> of the waits that returned before closing
all == <<vars, calls, now, served>>
Init == Init0([threads |-> NThreads, interval |-> Interval]) /\ calls = 0 /\ now = 0 /\ served = TRUE
Next ==
  \/ calls < MaxCalls /\ calls' = calls + 1 /\ (\E t \in Threads, op \in {"trigger", "wait", "close"} : (op = "close" => ~closing) /\ Call(t, op)) /\ UNCHANGED <<now, served>>
  \/ (\E t \in Threads : Lin(t)) /\ UNCHANGED <<calls, now, served>>
  \/ \E t \in Threads : Return(t, 0) /\ served' = (served /\ (pend[t].op = "wait" => closing \/ starts >= pend[t].run)) /\ UNCHANGED <<calls, now>>
  \/ Start(now) /\ UNCHANGED <<calls, now, served>>
  \/ Finish(now) /\ UNCHANGED <<calls, now, served>>
  \/ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<vars, calls, served>>
Spec == Init /\ [][Next]_all
Order == starts <= trigs /\ served
AfterClose == [][closed => starts' = starts]_all
(* whoever calls comes back *)
Quiet == (~ENABLED ((\E t \in Threads : Lin(t)) \/ (\E t \in Threads : Return(t, 0)) \/ (\E at \in 0 .. MaxTime + Interval : Start(at)) \/ Finish(now))) => (need => closing) /\ \A t \in Threads : pend[t].st = "idle"
=============================================================================
