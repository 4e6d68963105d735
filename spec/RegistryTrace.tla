---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
Set(s) == {s[i] : i \in 1 .. Len(s)}
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\
  CASE E.e = "call" -> Call(E.op, E.c, Set(E.types)) [] E.e = "ret" -> Return(E.res) [] E.e = "note" -> Note(E.k, E.c, Set(E.types))
    [] E.e = "prio" -> SetPriority(E.c, E.v) [] E.e = "look" -> Look([i \in 1 .. Len(E.sets) |-> Set(E.sets[i])], E.best) [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
