--------------------------------- MODULE Pool ---------------------------------
(* A thread pool. Workers are its threads, or threads that call run_one or run_all. Functions are numbers.              *)
(* pend[t]: [op, a, st, n]; st: idle, called, loop (running functions; n: how many it still may take, -1 any), done;     *)
(* got[t], run[t]: the function t has taken from the queue, and which it runs (0 none)                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, cl, closed, pend, got, run, workers     \* cl: close has been called and took effect; closed: it returned
vars == <<q, cl, closed, pend, got, run, workers>>
Idle == [op |-> "", a |-> 0, st |-> "idle", n |-> 0]
Init0(cfg) == /\ q = <<>> /\ cl = FALSE /\ closed = FALSE /\ workers = {w \in 1 .. cfg.threads : w > cfg.threads - cfg.workers}
              /\ pend = [t \in 1 .. cfg.threads |-> Idle] /\ got = [t \in 1 .. cfg.threads |-> 0] /\ run = [t \in 1 .. cfg.threads |-> 0]
Threads == DOMAIN pend
Without(s, i) == [j \in 1 .. Len(s) - 1 |-> IF j < i THEN s[j] ELSE s[j + 1]]
Call(t, op, a) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, st |-> "called", n |-> 0]] /\ UNCHANGED <<q, cl, closed, got, run, workers>>
Set(t, st) == pend' = [pend EXCEPT ![t].st = st]
Works(t) == t \in workers \/ (pend[t].st = "loop" /\ pend[t].n # 0)
Lin(t) ==
  \/ /\ pend[t].st = "called" /\ UNCHANGED <<closed, got, run, workers>>
     /\ CASE pend[t].op = "queue" -> q' = (IF cl THEN q ELSE Append(q, pend[t].a)) /\ Set(t, "done") /\ UNCHANGED cl
          [] pend[t].op = "close" -> cl' = TRUE /\ Set(t, "closing") /\ UNCHANGED q
          [] pend[t].op = "runall" -> pend' = [pend EXCEPT ![t].st = "loop", ![t].n = -1] /\ UNCHANGED <<q, cl>>
          [] pend[t].op = "runone" -> pend' = [pend EXCEPT ![t].st = "loop", ![t].n = 1] /\ UNCHANGED <<q, cl>>
  \/ /\ Works(t) /\ got[t] = 0 /\ run[t] = 0 /\ UNCHANGED <<cl, closed, run, workers>>
     /\ \E i \in 1 .. Len(q) : (Cardinality(workers) > 1 \/ i = 1) /\ got' = [got EXCEPT ![t] = q[i]] /\ q' = Without(q, i)
     /\ pend' = IF t \notin workers /\ pend[t].n > 0 THEN [pend EXCEPT ![t].n = @ - 1] ELSE pend
  \/ got[t] # 0 /\ cl /\ got' = [got EXCEPT ![t] = 0] /\ UNCHANGED <<q, cl, closed, pend, run, workers>>        \* it is never run
  \/ pend[t].st = "loop" /\ got[t] = 0 /\ run[t] = 0 /\ (pend[t].n = 0 \/ q = <<>> \/ cl) /\ Set(t, "done") /\ UNCHANGED <<q, cl, closed, got, run, workers>>
Start(t, f) == ~closed /\ f # 0 /\ got[t] = f /\ got' = [got EXCEPT ![t] = 0] /\ run' = [run EXCEPT ![t] = f] /\ UNCHANGED <<q, cl, closed, pend, workers>>
Finish(t, f) == f # 0 /\ run[t] = f /\ run' = [run EXCEPT ![t] = 0] /\ UNCHANGED <<q, cl, closed, pend, got, workers>>
Return(t, res) ==
  /\ res = 0
  /\ \/ pend[t].st = "done" /\ UNCHANGED closed
     \/ pend[t].st = "closing" /\ (\A w \in Threads : run[w] = 0) /\ closed' = TRUE
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, cl, got, run, workers>>
(* nothing moves any more *)
End(stuck) ==
  /\ stuck = 0 /\ \A t \in Threads : pend[t].st = "idle" /\ run[t] = 0
  /\ (workers # {} /\ ~cl) => (q = <<>> /\ \A t \in Threads : got[t] = 0)
  /\ UNCHANGED vars
=============================================================================
