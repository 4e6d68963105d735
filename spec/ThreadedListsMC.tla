--------------------------- MODULE ThreadedListsMC ---------------------------
(* The locking of a filtered list: a filter or sort key is set and the list updated in one critical section, an insertion *)
(* or removal of the source is passed on in a later one, and the list is not touched while a set of changes is open.     *)
EXTENDS ThreadedLists, TLC
CONSTANTS NThreads, NItems, MaxCalls
VARIABLES calls, level, master, dirty      \* master: the source as far as it has been passed on; dirty: a set of changes has to be made up for
all == <<vars, calls, level, master, dirty>>
Init == Init0([threads |-> NThreads, attr |-> [x \in 1 .. NItems |-> <<x % 2, x>>]]) /\ calls = 0 /\ level = 0 /\ master = <<>> /\ dirty = FALSE
Apply(lv) == IF lv > 0 THEN UNCHANGED mirror ELSE mirror' \in {q \in UNION {[1 .. n -> 1 .. NItems] : n \in 0 .. NItems} : IsFiltered(q, master', flt', srt', rev', attr)}
Busy(op) == \E t \in Threads : pend[t].op \in op
Start == calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<level, master, dirty>> /\ \E t \in Threads :
  \/ ~Busy({"insert", "remove"}) /\ \E x \in 1 .. NItems : x \notin ToSet(source) /\ \E i \in 0 .. Len(source) : Call(t, "insert", i, x)
  \/ ~Busy({"insert", "remove"}) /\ \E i \in 0 .. Len(source) - 1 : Call(t, "remove", i, source[i + 1])
  \/ \E k \in {0, 1, 3} : Call(t, "filter", k, 0)
  \/ \E k \in {0, 1} : Call(t, "sort", k, 0)
  \/ Call(t, "begin", 0, 0)
  \/ level > 0 /\ ~Busy({"end"}) /\ Call(t, "end", 0, 0)
(* the changes of the variables of the code, and of those of the specification, in one critical section *)
Section(t) == LET p == pend[t] IN
  /\ p.st = "called" /\ calls' = calls
  /\ CASE p.op \in {"filter", "sort"} -> /\ pend' = [pend EXCEPT ![t].st = "done"] /\ flt' = (IF p.op = "filter" THEN p.i ELSE flt) /\ srt' = (IF p.op = "sort" THEN p.i ELSE srt)
                                         /\ UNCHANGED <<source, attr, rev, master, level>> /\ Apply(level) /\ dirty' = (dirty \/ level > 0)
       [] p.op = "insert" -> /\ source' = Put(source, p.i, p.x) /\ pend' = [pend EXCEPT ![t].st = "passing"] /\ UNCHANGED <<attr, flt, srt, rev, mirror, master, level, dirty>>
       [] p.op = "remove" -> /\ source' = Delete(source, p.i) /\ pend' = [pend EXCEPT ![t].st = "passing"] /\ UNCHANGED <<attr, flt, srt, rev, mirror, master, level, dirty>>
       [] p.op = "begin" -> /\ level' = level + 1 /\ pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED <<source, attr, flt, srt, rev, mirror, master, dirty>>
       [] p.op = "end" -> /\ level' = level - 1 /\ pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED <<source, attr, flt, srt, rev, master>> /\ Apply(level') /\ dirty' = (dirty /\ level' > 0)
Passing(t) == LET p == pend[t] IN
  /\ p.st = "passing" /\ pend' = [pend EXCEPT ![t].st = "done"] /\ master' = (IF p.op = "insert" THEN Put(master, p.i, p.x) ELSE Delete(master, p.i))
  /\ UNCHANGED <<source, attr, flt, srt, rev, level, calls>> /\ Apply(level) /\ dirty' = (dirty \/ level > 0)
Next == Start \/ (\E t \in Threads : Section(t) \/ Passing(t)) \/ ((\E t \in Threads : Return(t, <<>>)) /\ UNCHANGED <<calls, level, master, dirty>>)
Spec == Init /\ [][Next]_all
Calm == (level = 0 /\ \A t \in Threads : pend[t].st # "passing") => IsFiltered(mirror, source, flt, srt, rev, attr)
Level == level = 0 => ~dirty
=============================================================================
