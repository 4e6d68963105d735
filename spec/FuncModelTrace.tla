---------------------------- MODULE FuncModelTrace ----------------------------
EXTENDS FuncModel, TraceLib
VARIABLES t, l
E == Traces[t].evs[l]
TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ Init0(Traces[t].cfg.init, Traces[t].cfg.mod)
TNext == l <= Len(Traces[t].evs) /\ t' = t /\ l' = l + 1 /\
  CASE E.e = "receive" -> Receive(E.v, E.ok) [] E.e = "done" -> Done(E.k) [] E.e = "note" -> (Note(E.v) \/ NoteEqual(E.v))
    [] E.e = "read" -> Read(E.v) [] E.e = "complete" -> Complete(E.v) [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
TInv == TRUE
Reached == Reach(t, l)
=============================================================================
