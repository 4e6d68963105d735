-------------------------------- MODULE Tasks --------------------------------
(* A task queue (q, unfinished) or a task set (set: task by key, 0 none) used by threads. Tasks are numbers.           *)
(* pend[t]: [op, a, k, st, n, task, todo, res]; st: idle, called, loop, got (a task taken), running, ran, done;          *)
(* n: tasks which a perform or clear may still take; todo: tasks which a perform of the set still has to run            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, unf, set, pend
vars == <<q, unf, set, pend>>
Idle == [op |-> "", a |-> 0, k |-> 0, st |-> "idle", n |-> 0, task |-> 0, todo |-> {}, res |-> 0]
Init0(cfg) == q = <<>> /\ unf = 0 /\ set = [k \in 1 .. cfg.keys |-> 0] /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Raised == -1
Call(t, op, a, k) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.k = k, !.st = "called"]] /\ UNCHANGED <<q, unf, set>>
Set(t, st) == pend' = [pend EXCEPT ![t].st = st]
Lin(t) == LET p == pend[t] IN
  \/ p.st = "called" /\ CASE
       p.op = "put" -> q' = Append(q, p.a) /\ unf' = unf + 1 /\ Set(t, "done") /\ UNCHANGED set
    [] p.op \in {"perform", "clear"} -> pend' = [pend EXCEPT ![t].st = "loop", ![t].n = Len(q)] /\ UNCHANGED <<q, unf, set>>
    [] p.op = "join" -> unf = 0 /\ Set(t, "done") /\ UNCHANGED <<q, unf, set>>
    [] p.op = "sadd" -> set' = [set EXCEPT ![p.k] = p.a] /\ Set(t, "done") /\ UNCHANGED <<q, unf>>
    [] p.op = "sclear" -> set' = [set EXCEPT ![p.k] = 0] /\ Set(t, "done") /\ UNCHANGED <<q, unf>>
    [] p.op = "sperform" -> /\ pend' = [pend EXCEPT ![t].st = "loop", ![t].todo = {set[k] : k \in DOMAIN set} \ {0}]
                            /\ set' = [k \in DOMAIN set |-> 0] /\ UNCHANGED <<q, unf>>
  \/ p.st = "loop" /\ p.op # "sperform" /\
       \/ p.n > 0 /\ q # <<>> /\ q' = Tail(q) /\ pend' = [pend EXCEPT ![t].st = "got", ![t].task = Head(q)] /\ UNCHANGED <<unf, set>>
       \/ p.n > 0 /\ q = <<>> /\ pend' = [pend EXCEPT ![t].n = @ - 1] /\ UNCHANGED <<q, unf, set>>    \* somebody else took it
       \/ (p.n = 0 \/ q = <<>>) /\ Set(t, "done") /\ UNCHANGED <<q, unf, set>>
  \/ p.st = "loop" /\ p.op = "sperform" /\ p.todo = {} /\ Set(t, "done") /\ UNCHANGED <<q, unf, set>>
  \/ p.st = "got" /\ p.op = "clear" /\ unf' = unf - 1 /\ pend' = [pend EXCEPT ![t].st = "loop", ![t].n = @ - 1] /\ UNCHANGED <<q, set>>
  \/ p.st = "ran" /\ p.op = "perform" /\ unf' = unf - 1 /\ pend' = [pend EXCEPT ![t].st = IF p.res = Raised THEN "done" ELSE "loop", ![t].n = @ - 1] /\ UNCHANGED <<q, set>>
  \/ p.st = "ran" /\ p.op = "sperform" /\ Set(t, "loop") /\ UNCHANGED <<q, unf, set>>
Run(t, task) ==
  /\ \/ pend[t].st = "got" /\ pend[t].op = "perform" /\ pend[t].task = task /\ Set(t, "running")
     \/ pend[t].st = "loop" /\ pend[t].op = "sperform" /\ task \in pend[t].todo /\ pend' = [pend EXCEPT ![t].st = "running", ![t].task = task, ![t].todo = @ \ {task}]
  /\ UNCHANGED <<q, unf, set>>
RunEnd(t, task, res) == pend[t].st = "running" /\ pend[t].task = task /\ pend' = [pend EXCEPT ![t].st = "ran", ![t].res = res] /\ UNCHANGED <<q, unf, set>>
Return(t, res) == pend[t].st = "done" /\ pend[t].res = res /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, unf, set>>
(* nothing moves any more: stuck are the threads which have not come back, and only those may be which wait for tasks nobody performs *)
End(size, unfinished, stuck) ==
  /\ size = Len(q) /\ unfinished = unf
  /\ \A t \in Threads : IF t \in stuck THEN pend[t].st = "called" /\ pend[t].op = "join" /\ unf > 0 ELSE pend[t].st = "idle"
  /\ pend' = [t \in Threads |-> Idle] /\ UNCHANGED <<q, unf, set>>
=============================================================================
