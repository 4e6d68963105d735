---------------------------- MODULE TickersTrace ----------------------------
EXTENDS Tickers, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1
TNext == /\ l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1
         /\ Returned(E.res)
         /\ CASE E.e = "linear" -> Linear(E.lo, E.hi, E.n, E.x, E.res)
              [] E.e = "label" -> Label(E.lo, E.hi, E.n, E.v, E.res.shown)
              [] E.e = "pretty" -> Pretty(E.v, E.r, E.res.v)
              [] E.e = "log" -> Log(E.hi, E.base, E.u, E.res)
TSpec == TInit /\ [][TNext]_<<t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
