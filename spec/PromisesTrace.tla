---------------------------- MODULE PromisesTrace ----------------------------
EXTENDS Promises, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ t' = t /\
  \/ l' = l + 1 /\ CASE E.e = "call" -> Call(E.th, E.op) [] E.e = "ret" -> Return(E.th, E.res) [] E.e = "start" -> Start(E.th) [] E.e = "finish" -> Finish(E.th, E.v)
                     [] E.e = "end" -> End(E.stuck) [] OTHER -> FALSE
  \/ l' = l /\ \E x \in Threads : Lin(x)
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
