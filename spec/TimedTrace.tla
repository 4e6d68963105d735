----------------------------- MODULE TimedTrace -----------------------------
EXTENDS Timed, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg)
TNext == l <= Len(Traces[t].evs) /\ l' = l + 1 /\ t' = t /\
  CASE E.e = "make" -> Create(E.at, E.kind, E.period)
    [] E.e = "change" -> Change(E.at, E.v)
    [] E.e = "close" -> Close(E.at, E.s)
    [] E.e = "fire" -> Fire(E.at, E.s, E.v) /\ E.held = E.v
    [] E.e = "look" -> Look(E.at, E.vals, E.tasks)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
