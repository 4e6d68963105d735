------------------------------ MODULE LoopClose ------------------------------
(* Closing an event loop. tasks[k] = [prog, pc (steps begun), st ("live" or how it ended), cancel (it was asked to)].       *)
(* Steps of programs: <<"yield">>, <<"sleep">>, <<"exec", j>> (work j in an executor), <<"wait", k>> (for task k), <<"fail">>. *)
(* work[j]: the work j given to an executor, "todo", "done" or "dropped" (no task waits for it any more: it may be done or not). phase: "open", "closing", "closed".                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tasks, work, phase
vars == <<tasks, work, phase>>
Init0 == tasks = <<>> /\ work = <<>> /\ phase = "open"
Live(k) == k \in 1 .. Len(tasks) /\ tasks[k].st = "live"
Ended(k) == tasks[k].st # "live" \/ (tasks[k].cancel /\ tasks[k].pc = 0)
Spawn(prog) == phase = "open" /\ tasks' = Append(tasks, [prog |-> prog, pc |-> 0, st |-> "live", cancel |-> FALSE]) /\ UNCHANGED <<work, phase>>
Submit == phase = "open" /\ work' = Append(work, "todo") /\ UNCHANGED <<tasks, phase>>
(* the step that has begun is over *)
Over(k) == LET p == tasks[k] IN IF p.pc = 0 THEN TRUE ELSE LET s == p.prog[p.pc] IN
   CASE s[1] = "exec" -> work[s[2]] = "done" [] s[1] = "wait" -> Ended(s[2]) [] s[1] = "fail" -> FALSE [] OTHER -> TRUE
Step(k, i) ==
  /\ phase # "closed" /\ Live(k) /\ Over(k) /\ i = tasks[k].pc + 1 /\ i <= Len(tasks[k].prog)
  /\ tasks[k].prog[i][1] # "exec" /\ tasks' = [tasks EXCEPT ![k].pc = i] /\ UNCHANGED <<work, phase>>
(* work gets its number when its step begins *)
StepExec(k, i, j) == phase # "closed" /\ Live(k) /\ Over(k) /\ i = tasks[k].pc + 1 /\ i <= Len(tasks[k].prog) /\ tasks[k].prog[i][1] = "exec" /\ j = Len(work) + 1
  /\ tasks' = [tasks EXCEPT ![k].pc = i, ![k].prog[i] = <<"exec", j>>] /\ work' = Append(work, "todo") /\ UNCHANGED phase
Finish(j) == j \in 1 .. Len(work) /\ ((phase # "closed" /\ work[j] = "todo") \/ work[j] = "dropped") /\ work' = [work EXCEPT ![j] = "done"] /\ UNCHANGED <<tasks, phase>>
Cancel(k) == phase # "closed" /\ tasks' = [tasks EXCEPT ![k].cancel = TRUE] /\ UNCHANGED <<work, phase>>
End(k, how) ==
  /\ phase # "closed" /\ Live(k)
  /\ CASE how = "ok" -> Over(k) /\ tasks[k].pc = Len(tasks[k].prog)
       [] how = "failed" -> tasks[k].pc > 0 /\ tasks[k].prog[tasks[k].pc][1] = "fail"
       [] how = "cancelled" -> tasks[k].cancel
       [] OTHER -> FALSE
  /\ tasks' = [tasks EXCEPT ![k].st = how] /\ UNCHANGED phase
  /\ work' = LET p == tasks[k] IN IF ~Over(k) /\ how = "cancelled" THEN (IF p.prog[p.pc][1] = "exec" THEN [work EXCEPT ![p.prog[p.pc][2]] = "dropped"] ELSE work) ELSE work
Call == phase = "open" /\ phase' = "closing" /\ UNCHANGED <<tasks, work>>
AllEnded == (\A k \in 1 .. Len(tasks) : Ended(k)) /\ (\A j \in 1 .. Len(work) : work[j] # "todo")
Return == phase = "closing" /\ AllEnded /\ phase' = "closed" /\ UNCHANGED <<tasks, work>>
=============================================================================
