---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS Streams, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
Consume == l <= Len(Traces[t].evs) /\ l' = l + 1 /\ t' = t
TNext ==
  \/ Consume /\ E.e = "op" /\ Op(E.in)
  \/ Consume /\ E.e = "emit" /\ (IF "values" \in Clauses THEN Emit(E.s, E.v, E.held) ELSE UNCHANGED vars)
  \/ Consume /\ E.e = "end" /\ End(E)
  \/ l <= Len(Traces[t].evs) /\ (\E d \in Ids : Silent(d)) /\ UNCHANGED <<t, l>>
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
