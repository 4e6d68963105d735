------------------------------ MODULE Sampling ------------------------------
(* A sample stream whose input is changed by threads while the loop runs in another. At the end of a period the latest  *)
(* value is taken, if one came since the last was; it is fired by the loop, whatever arrives in the meantime.            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES latest, dirty, taken, val, due, open, pend
vars == <<latest, dirty, taken, val, due, open, pend>>
Idle == [st |-> "idle", v |-> 0]
Init0(cfg) == latest = 0 /\ dirty = TRUE /\ taken = <<>> /\ val = 0 /\ due = FALSE /\ open = TRUE /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Call(t, v) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [st |-> "called", v |-> v]] /\ UNCHANGED <<latest, dirty, taken, val, due, open>>
Arrive(t) == /\ pend[t].st = "called" /\ pend' = [pend EXCEPT ![t].st = "done"]
             /\ latest' = pend[t].v /\ dirty' = TRUE /\ UNCHANGED <<taken, val, due, open>>
Return(t) == pend[t].st = "done" /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<latest, dirty, taken, val, due, open>>
(* a period ends *)
Tick == taken = <<>> /\ ~due /\ due' = open /\ UNCHANGED <<latest, dirty, taken, val, open, pend>>
Take == /\ due /\ due' = FALSE /\ taken' = (IF dirty THEN <<latest>> ELSE <<>>) /\ dirty' = FALSE
        /\ UNCHANGED <<latest, val, open, pend>>
Fire(v, held) == taken = <<v>> /\ held = v /\ val' = v /\ taken' = <<>> /\ UNCHANGED <<latest, dirty, due, open, pend>>
Ticked(held) == ~due /\ taken = <<>> /\ (open => held = val) /\ UNCHANGED vars
Close == open' = FALSE /\ due' = FALSE /\ taken' = <<>> /\ UNCHANGED <<latest, dirty, val, pend>>
End(stuck, tasks) == stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ (open => ~dirty) /\ (open \/ tasks = 0) /\ UNCHANGED vars
=============================================================================
