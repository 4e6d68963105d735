--------------------------- MODULE LoopCloseTrace ---------------------------
EXTENDS LoopClose, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\
  CASE E.e = "spawn" -> Spawn(E.prog) [] E.e = "submit" -> Submit [] E.e = "step" -> Step(E.k, E.i) [] E.e = "exec" -> StepExec(E.k, E.i, E.j)
    [] E.e = "finish" -> Finish(E.j) [] E.e = "cancel" -> Cancel(E.k) [] E.e = "end" -> End(E.k, E.how) [] E.e = "call" -> Call
    [] E.e = "ret" -> E.closed /\ E.done /\ Return [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
