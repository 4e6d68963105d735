------------------------------- MODULE TasksMC -------------------------------
EXTENDS Tasks, TLC
CONSTANTS NThreads, MaxCalls, Kind
VARIABLES next, ran, last, dropped     \* last: the number put or added last; ran: tasks run, in order; dropped: tasks cleared or replaced
all == <<vars, next, ran, last, dropped>>
Init == Init0([threads |-> NThreads, keys |-> 2]) /\ next = 1 /\ ran = <<>> /\ last = 0 /\ dropped = {}
Ops == IF Kind = "queue" THEN {"put", "perform", "clear", "join"} ELSE {"sadd", "sclear", "sperform"}
Next ==
  \/ next <= MaxCalls /\ next' = next + 1 /\ (\E t \in Threads, op \in Ops, k \in (IF Kind = "queue" THEN {1} ELSE {1, 2}) : Call(t, op, next, k)) /\ UNCHANGED <<ran, last, dropped>>
  \/ (\E t \in Threads : Lin(t) /\ dropped' = dropped \union {pend[x].task : x \in {x \in Threads : pend[x].st = "got" /\ pend[x].op = "clear"}}
                                              \union {set[k] : k \in {k \in DOMAIN set : set[k] # 0 /\ set'[k] # set[k] /\ pend[t].op \in {"sadd", "sclear"}}}) /\ UNCHANGED <<next, ran, last>>
  \/ \E t \in Threads, x \in 1 .. MaxCalls : Run(t, x) /\ ran' = Append(ran, x) /\ UNCHANGED <<next, last, dropped>>
  \/ (\E t \in Threads, x \in 1 .. MaxCalls, r \in {0, Raised} : (Kind = "queue" \/ r = 0) /\ RunEnd(t, x, r)) /\ UNCHANGED <<next, ran, last, dropped>>
  \/ (\E t \in Threads : Return(t, pend[t].res)) /\ UNCHANGED <<next, ran, last, dropped>>
Spec == Init /\ [][Next]_all
Once == \A i, j \in 1 .. Len(ran) : i # j => ran[i] # ran[j]
NotDropped == \A i \in 1 .. Len(ran) : ran[i] \notin dropped
(* nothing is lost: what is unfinished is queued or in somebody's hands *)
Kept == Kind = "queue" => unf = Len(q) + Cardinality({t \in Threads : pend[t].st \in {"got", "running", "ran"}})
=============================================================================
