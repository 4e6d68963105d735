----------------------------- MODULE TasksTrace -----------------------------
EXTENDS Tasks, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
Range(s) == {s[i] : i \in 1 .. Len(s)}
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ t' = t /\
  \/ l' = l + 1 /\ CASE E.e = "call" -> Call(E.th, E.op, E.a, E.k) [] E.e = "ret" -> Return(E.th, E.res) [] E.e = "run" -> Run(E.th, E.task)
                     [] E.e = "ran" -> RunEnd(E.th, E.task, E.res) [] E.e = "end" -> End(E.size, E.unfinished, Range(E.stuck)) [] OTHER -> FALSE
  \/ l' = l /\ \E x \in Threads : Lin(x)
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
