---------------------------- MODULE RecorderTrace ----------------------------
EXTENDS Recorder, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\
  CASE E.e = "new" -> New(E.props) [] E.e = "prop" -> SetProp(E.x, E.p, E.v) [] E.e = "touch" -> Touch(E.x, E.p, E.v) [] E.e = "ins" -> Insert(E.x, E.r, E.i, E.y)
    [] E.e = "rem" -> Remove(E.x, E.r, E.i) [] E.e = "item" -> SetItem(E.x, E.r, E.y) [] E.e = "start" -> Start(E.x)
    [] E.e = "close" -> Close(E.r) [] E.e = "applied" -> Applied(E.r, E.tree) [] E.e = "seen" -> Seen(E.x, E.tree) [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
