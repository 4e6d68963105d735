----------------------------- MODULE Observables -----------------------------
(* Observable objects: each notification fires the event of its kind of that object, with its arguments, to those     *)
(* listening at that time, in the order in which they came. ls: listeners [o: object, k: kind, live].                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLE ls
vars == <<ls>>
Kinds == {"property_changed", "item_set", "item_cleared", "item_inserted", "item_removed", "item_added", "item_discarded", "item_content_changed"}
Arity(k) == CASE k \in {"property_changed", "item_cleared"} -> 1
              [] k \in {"item_set", "item_added", "item_discarded"} -> 2
              [] OTHER -> 3
Init0 == ls = <<>>
Listening(o, k) == SelectSeq([i \in 1 .. Len(ls) |-> i], LAMBDA i : ls[i].live /\ ls[i].o = o /\ ls[i].k = k)
Args(in) == SubSeq(<<in.key, in.x, in.i>>, 1, Arity(in.k))
(* calls: <<listener, arguments>> *)
Do(in, obs) ==
  CASE in.op = "listen" -> ls' = Append(ls, [o |-> in.o, k |-> in.k, live |-> TRUE]) /\ obs.calls = <<>>
    [] in.op = "close" -> ls' = [ls EXCEPT ![in.l].live = FALSE] /\ obs.calls = <<>>
    [] in.op = "notify" -> ls' = ls /\ obs.calls = [i \in 1 .. Len(Listening(in.o, in.k)) |-> <<Listening(in.o, in.k)[i], Args(in)>>]
    [] OTHER -> FALSE
=============================================================================
