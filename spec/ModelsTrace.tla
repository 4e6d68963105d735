----------------------------- MODULE ModelsTrace -----------------------------
EXTENDS Models, TraceLib
VARIABLES t, l
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ Do(Traces[t].evs[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == Follows
Reached == Reach(t, l)
=============================================================================
