-------------------------------- MODULE PoolMC --------------------------------
EXTENDS Pool, TLC
CONSTANTS NThreads, NWorkers, MaxCalls
VARIABLES next, ran
all == <<vars, next, ran>>
Init == Init0([threads |-> NThreads + NWorkers, workers |-> NWorkers]) /\ next = 1 /\ ran = <<>>
Ops == {"queue", "close"} \union (IF NWorkers = 0 THEN {"runone", "runall"} ELSE {})
Next ==
  \/ next <= MaxCalls /\ next' = next + 1 /\ (\E t \in 1 .. NThreads, op \in Ops : (op = "close" => ~cl /\ \A x \in Threads : pend[x].op # "close")
        /\ (op \in {"runone", "runall"} => t = 1) /\ Call(t, op, next)) /\ UNCHANGED ran
  \/ (\E t \in Threads : Lin(t)) /\ UNCHANGED <<next, ran>>
  \/ \E t \in Threads, f \in 1 .. MaxCalls : Start(t, f) /\ ran' = Append(ran, f) /\ UNCHANGED next
  \/ (\E t \in Threads, f \in 1 .. MaxCalls : Finish(t, f)) /\ UNCHANGED <<next, ran>>
  \/ (\E t \in Threads : Return(t, 0)) /\ UNCHANGED <<next, ran>>
Spec == Init /\ [][Next]_all
Once == \A i, j \in 1 .. Len(ran) : i # j => ran[i] # ran[j]
None == closed => \A t \in Threads : run[t] = 0
(* when nothing can happen any more except new calls, everybody has returned and everything queued was run *)
Complete == [][closed => ran' = ran]_all
Quiet == (~ENABLED ((\E t \in Threads : Lin(t)) \/ (\E t \in Threads, f \in 1 .. MaxCalls : Start(t, f) \/ Finish(t, f)) \/ \E t \in Threads : Return(t, 0)))
         => (\A t \in Threads : pend[t].st = "idle" /\ run[t] = 0) /\ ((NWorkers > 0 /\ ~cl) => q = <<>>)
=============================================================================
