---------------------------- MODULE LoopCloseMC ----------------------------
EXTENDS LoopClose, TLC
CONSTANTS MaxTasks, MaxLen
Kinds(n) == {<<"yield">>, <<"exec", 0>>, <<"fail">>} \union {<<"wait", k>> : k \in 1 .. n}
Progs(n) == UNION {[1 .. m -> Kinds(n)] : m \in 0 .. MaxLen}
Init == Init0
Run == \/ \E k \in 1 .. Len(tasks) : \/ \E i \in 1 .. MaxLen, j \in 1 .. (MaxTasks * MaxLen + 1) : StepExec(k, i, j)
                                     \/ \E i \in 1 .. MaxLen : Step(k, i)
                                     \/ \E how \in {"ok", "failed", "cancelled"} : End(k, how)
       \/ \E j \in 1 .. Len(work) : Finish(j)
Next == \/ Run \/ Call \/ Return
        \/ Len(tasks) < MaxTasks /\ \E p \in Progs(Len(tasks)) : Spawn(p)
        \/ Len(work) < 1 /\ Submit
        \/ \E k \in 1 .. Len(tasks) : Live(k) /\ ~tasks[k].cancel /\ phase = "open" /\ Cancel(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Run) /\ WF_vars(Return)
AtEnd == phase = "closed" => AllEnded
Closes == (phase = "closing") ~> (phase = "closed")
=============================================================================
