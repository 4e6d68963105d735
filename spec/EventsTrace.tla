---------------------------- MODULE EventsTrace ----------------------------
EXTENDS Events, TraceLib
VARIABLES t, l
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0
TNext == l <= Len(Traces[t].evs) /\ Do(Traces[t].evs[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TypeOk /\ Snapshots
Reached == Reach(t, l)
=============================================================================
