----------------------------- MODULE SamplingMC -----------------------------
(* The critical sections of a sample stream, step by step, with the specification along: what the code takes is what    *)
(* the specification takes.                                                                                              *)
EXTENDS Sampling, TLC
CONSTANTS NThreads, MaxCalls
VARIABLES calls, lock, pc, pending, flag, read      \* lock: 0 or its holder (NThreads + 1: the loop); read: what the loop has read
all == <<vars, calls, lock, pc, pending, flag, read>>
L == NThreads + 1
Init == Init0([threads |-> NThreads]) /\ calls = 0 /\ lock = 0 /\ pc = [t \in 1 .. L |-> 0] /\ pending = 0 /\ flag = TRUE /\ read = <<>>
Step(t) ==
  \/ pc[t] = 0 /\ calls < MaxCalls /\ Call(t, calls + 1) /\ calls' = calls + 1 /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED <<lock, pending, flag, read>>
  \/ pc[t] = 1 /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = 2] /\ UNCHANGED <<vars, calls, pending, flag, read>>
  \/ pc[t] = 2 /\ pending' = pend[t].v /\ pc' = [pc EXCEPT ![t] = 3] /\ UNCHANGED <<vars, calls, lock, flag, read>>
  \/ pc[t] = 3 /\ flag' = TRUE /\ Arrive(t) /\ pc' = [pc EXCEPT ![t] = 4] /\ UNCHANGED <<calls, lock, pending, read>>
  \/ pc[t] = 4 /\ lock' = 0 /\ Return(t) /\ pc' = [pc EXCEPT ![t] = 0] /\ UNCHANGED <<calls, pending, flag, read>>
Loop ==
  \/ pc[L] = 0 /\ Tick /\ pc' = [pc EXCEPT ![L] = 1] /\ UNCHANGED <<calls, lock, pending, flag, read>>
  \/ pc[L] = 1 /\ lock = 0 /\ lock' = L /\ pc' = [pc EXCEPT ![L] = 2] /\ UNCHANGED <<vars, calls, pending, flag, read>>
  \/ pc[L] = 2 /\ read' = (IF flag THEN <<pending>> ELSE <<>>) /\ pc' = [pc EXCEPT ![L] = 3] /\ UNCHANGED <<vars, calls, lock, pending, flag>>
  \/ pc[L] = 3 /\ flag' = FALSE /\ Take /\ pc' = [pc EXCEPT ![L] = 4] /\ UNCHANGED <<calls, lock, pending, read>>
  \/ pc[L] = 4 /\ lock' = 0 /\ pc' = [pc EXCEPT ![L] = IF read = <<>> THEN 0 ELSE 5] /\ UNCHANGED <<vars, calls, pending, flag, read>>
  \/ pc[L] = 5 /\ Fire(read[1], read[1]) /\ pc' = [pc EXCEPT ![L] = 0] /\ UNCHANGED <<calls, lock, pending, flag, read>>
Next == Loop \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_all
Same == (pc[L] \in {4, 5} => taken = read) /\ (lock = 0 => (flag = dirty /\ (dirty => pending = latest)))
(* the loop is never stuck with a value it cannot fire *)
Fires == pc[L] = 5 => ENABLED Loop
Delivered == (pc[L] = 0 /\ ~dirty /\ \A t \in Threads : pend[t].st = "idle") => val = latest
=============================================================================
