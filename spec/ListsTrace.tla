----------------------------- MODULE ListsTrace -----------------------------
EXTENDS Lists, TraceLib
VARIABLES t, l
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ Returned(Traces[t].evs[l].out) /\ Do(Traces[t].evs[l].in, Traces[t].evs[l].out) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
