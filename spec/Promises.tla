------------------------------- MODULE Promises -------------------------------
(* A promise read by threads; values are numbers, -1 is None. pend[t]: [op, st, res], st: idle, called, running (its    *)
(* function), got (the function has ended; res is its value), done                                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES val, made, run, pend     \* made: the function has succeeded; run: somebody is running it
vars == <<val, made, run, pend>>
None == -1
Raised == -2
Idle == [op |-> "", st |-> "idle", res |-> 0]
Init0(cfg) == val = None /\ made = FALSE /\ run = FALSE /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Call(t, op) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> op, st |-> "called", res |-> 0]] /\ UNCHANGED <<val, made, run>>
Done(t, res) == pend' = [pend EXCEPT ![t].st = "done", ![t].res = res]
Start(t) == pend[t].st = "called" /\ pend[t].op = "value" /\ ~made /\ ~run /\ run' = TRUE /\ pend' = [pend EXCEPT ![t].st = "running"] /\ UNCHANGED <<val, made>>
Finish(t, v) == pend[t].st = "running" /\ pend' = [pend EXCEPT ![t].st = "got", ![t].res = v] /\ UNCHANGED <<val, made, run>>
Lin(t) ==
  \/ pend[t].st = "got" /\ run' = FALSE /\ Done(t, pend[t].res) /\ IF pend[t].res = Raised THEN UNCHANGED <<val, made>> ELSE val' = pend[t].res /\ made' = TRUE
  \/ pend[t].st = "called" /\ UNCHANGED <<val, made, run>> /\
       CASE pend[t].op = "value" -> made /\ Done(t, val)
         [] pend[t].op = "opt" -> Done(t, val)
         [] pend[t].op = "has" -> Done(t, IF val = None THEN 0 ELSE 1)
Return(t, res) == pend[t].st = "done" /\ pend[t].res = res /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<val, made, run>>
End(stuck) == stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED vars
=============================================================================
