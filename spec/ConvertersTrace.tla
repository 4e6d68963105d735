---------------------------- MODULE ConvertersTrace ----------------------------
EXTENDS Converters, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\ Result(E.e, E.a, E.b, E.res)
TSpec == TInit /\ [][TNext]_<<t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
