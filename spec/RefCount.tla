------------------------------- MODULE RefCount -------------------------------
(* A reference counted object used by threads. A call takes effect at one moment between its start and its return.     *)
(* pend[t]: [op, st, res], st: idle, called, deleting (it has to call about_to_delete), done                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES count, active, pend
vars == <<count, active, pend>>
Idle == [op |-> "", st |-> "idle", res |-> 0]
Init0(cfg) == count = cfg.count /\ active = TRUE /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Ok == 0
Failed == -1
Call(t, op) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> op, st |-> "called", res |-> 0]] /\ UNCHANGED <<count, active>>
Done(t, res) == pend' = [pend EXCEPT ![t].st = "done", ![t].res = res]
Lin(t) == /\ pend[t].st = "called"
  /\ CASE pend[t].op = "add" -> count' = count + 1 /\ UNCHANGED active /\ Done(t, Ok)
       [] pend[t].op = "count" -> UNCHANGED <<count, active>> /\ Done(t, count)
       [] pend[t].op \in {"remove", "uncheck"} ->
            IF count = 0 THEN UNCHANGED <<count, active>> /\ Done(t, Failed)
            ELSE /\ count' = count - 1
                 /\ IF active /\ count = 1 /\ pend[t].op = "remove" THEN active' = FALSE /\ pend' = [pend EXCEPT ![t].st = "deleting"]
                    ELSE UNCHANGED active /\ Done(t, Ok)
(* about_to_delete is called, with n references *)
Delete(t, n) == pend[t].st = "deleting" /\ n = 0 /\ count = 0 /\ Done(t, Ok) /\ UNCHANGED <<count, active>>
Return(t, res) == pend[t].st = "done" /\ pend[t].res = res /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<count, active>>
End(n, stuck) == n = count /\ stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED vars
=============================================================================
