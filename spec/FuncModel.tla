------------------------------ MODULE FuncModel ------------------------------
(* A model which evaluates the functions of a stream elsewhere. fns[k]: the k-th function received: [v: its value, ok: it does not raise]. *)
(* done: functions that have been evaluated; handled: those of them the model has dealt with; last: the one taken last (0: none).          *)
(* val is the value; a value which compares as equal (mod: remainders by it are compared, 0: values) does not replace it.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES fns, done, handled, last, val, mod
vars == <<fns, done, handled, last, val, mod>>
Init0(v, m) == fns = <<>> /\ done = {} /\ handled = {} /\ last = 0 /\ val = v /\ mod = m
Kept(v) == IF mod # 0 /\ v % mod = val % mod THEN val ELSE v
Receive(v, ok) == fns' = Append(fns, [v |-> v, ok |-> ok]) /\ UNCHANGED <<done, handled, last, val, mod>>
Done(k) == k \in 1 .. Len(fns) /\ k \notin done /\ done' = done \union {k} /\ UNCHANGED <<fns, handled, last, val, mod>>
Take(k) == k \in done \ handled /\ fns[k].ok /\ k > last /\ last' = k /\ val' = Kept(fns[k].v) /\ handled' = handled \union {k} /\ UNCHANGED <<fns, done, mod>>
Drop(k) == k \in done \ handled /\ (~fns[k].ok \/ k < last) /\ handled' = handled \union {k} /\ UNCHANGED <<fns, done, last, val, mod>>
(* it notifies when it takes a value, and may do so again for the same *)
Note(v) == IF last # 0 /\ v = val THEN UNCHANGED vars ELSE \E k \in last + 1 .. Len(fns) : Take(k) /\ v = val'
(* the same, if the values of several functions are equal *)
NoteEqual(v) == \E k \in last + 1 .. Len(fns) : Take(k) /\ v = val'
Good == {k \in 1 .. Len(fns) : fns[k].ok}
NewestFn == IF Good = {} THEN 0 ELSE CHOOSE k \in Good : \A j \in Good : j <= k
Read(v) == v = val /\ UNCHANGED vars
(* everything has been evaluated, and the model is complete *)
Complete(v) == done = 1 .. Len(fns) /\ last = NewestFn /\ v = val /\ UNCHANGED vars
=============================================================================
