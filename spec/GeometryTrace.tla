---------------------------- MODULE GeometryTrace ----------------------------
EXTENDS Geometry, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\ Result(E.e, E.k, E.a, E.b, E.c, E.res)
TSpec == TInit /\ [][TNext]_<<t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
