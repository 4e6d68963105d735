------------------------------ MODULE Dispatcher ------------------------------
(* A thread dispatcher, triggered and closed by threads; time in ticks.                                                 *)
(* pend[t]: [op (trigger, wait, close), st (idle, called, done), run (first run that starts after the call)]            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES trigs, need, starts, running, last, interval, closing, closed, pend
vars == <<trigs, need, starts, running, last, interval, closing, closed, pend>>
Idle == [op |-> "", st |-> "idle", run |-> 0]
Never == -1
Init0(cfg) == /\ trigs = 0 /\ need = FALSE /\ starts = 0 /\ running = FALSE /\ last = Never /\ interval = cfg.interval /\ closing = FALSE /\ closed = FALSE
              /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Call(t, op) == /\ pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> op, st |-> "called", run |-> starts + 1]]
               /\ closing' = (closing \/ op = "close") /\ UNCHANGED <<trigs, need, starts, running, last, interval, closed>>
Lin(t) == /\ pend[t].st = "called" /\ pend[t].op \in {"trigger", "wait"} /\ trigs' = trigs + 1 /\ need' = TRUE
          /\ pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED <<starts, running, last, interval, closing, closed>>
(* the last run that has ended *)
Ended == IF running THEN starts - 1 ELSE starts
Return(t, res) ==
  /\ res = 0 /\ pend[t].st # "idle"
  /\ CASE pend[t].op = "trigger" -> pend[t].st = "done" /\ UNCHANGED closed
       [] pend[t].op = "wait" -> pend[t].st = "done" /\ (Ended >= pend[t].run \/ closing) /\ UNCHANGED closed
       [] pend[t].op = "close" -> ~running /\ closed' = TRUE
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<trigs, need, starts, running, last, interval, closing>>
Start(at) == /\ ~running /\ ~closed /\ starts < trigs /\ (last # Never => at >= last + interval)
             /\ starts' = starts + 1 /\ running' = TRUE /\ need' = FALSE /\ UNCHANGED <<trigs, last, interval, closing, closed, pend>>
Finish(at) == running /\ running' = FALSE /\ last' = at /\ UNCHANGED <<trigs, need, starts, interval, closing, closed, pend>>
End(stuck) == stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ ~running /\ (need => closing) /\ UNCHANGED vars
=============================================================================
