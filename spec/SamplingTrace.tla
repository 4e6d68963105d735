---------------------------- MODULE SamplingTrace ----------------------------
EXTENDS Sampling, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ t' = t /\
  \/ l' = l + 1 /\ CASE E.e = "call" -> Call(E.th, E.v) [] E.e = "ret" -> E.res = 0 /\ Return(E.th) [] E.e = "tick" -> Tick [] E.e = "fire" -> Fire(E.v, E.held)
                     [] E.e = "ticked" -> Ticked(E.held) [] E.e = "close" -> Close [] E.e = "end" -> End(E.stuck, E.tasks) [] OTHER -> FALSE
  \/ l' = l /\ (Take \/ \E x \in Threads : Arrive(x))
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
