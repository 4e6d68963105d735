---------------------------- MODULE ThreadedLists ----------------------------
(* A filtered list used by threads. The source is changed by one thread at a time, the contents of items within sets of  *)
(* changes. mirror: the list as its notifications say.                                                                   *)
EXTENDS ListOps
VARIABLES source, attr, flt, srt, rev, mirror, pend
vars == <<source, attr, flt, srt, rev, mirror, pend>>
Idle == [op |-> "", st |-> "idle", i |-> 0, x |-> 0, res |-> <<>>]
Init0(cfg) == source = <<>> /\ attr = cfg.attr /\ flt = 0 /\ srt = 0 /\ rev = FALSE /\ mirror = <<>> /\ pend = [t \in 1 .. cfg.threads |-> Idle]
Threads == DOMAIN pend
Call(t, op, i, x) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [op |-> op, st |-> "called", i |-> i, x |-> x, res |-> <<>>]] /\ UNCHANGED <<source, attr, flt, srt, rev, mirror>>
Lin(t) == LET p == pend[t] IN
  /\ p.st = "called" /\ UNCHANGED mirror
  /\ pend' = [pend EXCEPT ![t].st = "done", ![t].res = IF p.op = "items" THEN mirror ELSE <<>>]
  /\ CASE p.op = "insert" -> source' = Put(source, p.i, p.x) /\ UNCHANGED <<attr, flt, srt, rev>>
       [] p.op = "remove" -> source' = Delete(source, p.i) /\ UNCHANGED <<attr, flt, srt, rev>>
       [] p.op = "f" -> attr' = [attr EXCEPT ![p.x][1] = p.i] /\ UNCHANGED <<source, flt, srt, rev>>
       [] p.op = "s" -> attr' = [attr EXCEPT ![p.x][2] = p.i] /\ UNCHANGED <<source, flt, srt, rev>>
       [] p.op = "filter" -> flt' = p.i /\ UNCHANGED <<source, attr, srt, rev>>
       [] p.op = "sort" -> srt' = p.i /\ UNCHANGED <<source, attr, flt, rev>>
       [] p.op = "reverse" -> rev' = (p.i = 1) /\ UNCHANGED <<source, attr, flt, srt>>
       [] OTHER -> UNCHANGED <<source, attr, flt, srt, rev>>
Note(k, i, x) ==
  /\ CASE k = "ins" -> i >= 0 /\ i <= Len(mirror) /\ mirror' = Put(mirror, i, x)
       [] k = "rem" -> i >= 0 /\ i < Len(mirror) /\ mirror[i + 1] = x /\ mirror' = Delete(mirror, i)
  /\ UNCHANGED <<source, attr, flt, srt, rev, pend>>
Return(t, res) == pend[t].st = "done" /\ pend[t].res = res /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<source, attr, flt, srt, rev, mirror>>
End(items, stuck) == /\ stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ items = mirror /\ IsFiltered(items, source, flt, srt, rev, attr) /\ UNCHANGED vars
=============================================================================
