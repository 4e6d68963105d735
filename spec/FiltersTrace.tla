---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Filters, TraceLib
VARIABLES t, l
TInit == t \in 1 .. Len(Traces) /\ l = 1
Ok(e) == /\ Returned(e.out)
         /\ e.out.m = Matches(e.in.f, e.in.x)
         /\ e.out.copy = e.out.m
TNext == l <= Len(Traces[t].evs) /\ Ok(Traces[t].evs[l]) /\ l' = l + 1 /\ t' = t
TSpec == TInit /\ [][TNext]_<<t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
