--------------------------- MODULE ThreadedEventsMC ---------------------------
(* An algorithm (that of Event: firing calls a snapshot, closed listeners are void, released ones are dropped when no     *)
(* snapshot has them) only makes steps of ThreadedEvents.                                                                  *)
EXTENDS ThreadedEvents, TLC
CONSTANTS NThreads, NListeners, MaxCalls
VARIABLES list, alive, refs, snap, full, got, calls    \* list: attached listeners; alive: not closed; refs: those whose user has the token;
                                                       \* snap[t], full[t]: what the firing still has to call, and has; got[t]: about to be called
all == <<vars, list, alive, refs, snap, full, got, calls>>
NoSnap == <<0>>
Init == /\ Init0([threads |-> NThreads, listeners |-> NListeners]) /\ list = <<>> /\ alive = {} /\ refs = {} /\ calls = 0
        /\ snap = [t \in Threads |-> NoSnap] /\ full = [t \in Threads |-> {}] /\ got = [t \in Threads |-> 0]
Kept(s, R, F) == SelectSeq(s, LAMBDA x : x \in R \/ \E t \in Threads : x \in F[t])
Elems(s) == {s[i] : i \in 1 .. Len(s)}
Step(t) == LET p == pend[t] IN
  \/ p.op = "listen" /\ Lin(t) /\ list' = Append(list, p.k) /\ alive' = alive \union {p.k} /\ refs' = refs \union {p.k} /\ UNCHANGED <<snap, full, got, calls>>
  \/ p.op = "close" /\ p.k \in alive /\ alive' = alive \ {p.k} /\ UNCHANGED <<vars, list, refs, snap, full, got, calls>>
  \/ p.op = "release" /\ p.k \in refs /\ refs' = refs \ {p.k} /\ list' = Kept(list, refs', full) /\ UNCHANGED <<vars, alive, snap, full, got, calls>>
  \/ p.op = "fire" /\ snap[t] = NoSnap /\ snap' = [snap EXCEPT ![t] = list] /\ full' = [full EXCEPT ![t] = Elems(list)] /\ UNCHANGED <<vars, list, alive, refs, got, calls>>
  \/ p.op = "fire" /\ snap[t] # NoSnap /\ snap[t] # <<>> /\ got[t] = 0 /\ snap' = [snap EXCEPT ![t] = Tail(@)]
       /\ got' = [got EXCEPT ![t] = IF Head(snap[t]) \in alive THEN Head(snap[t]) ELSE 0] /\ UNCHANGED <<vars, list, alive, refs, full, calls>>
Ready(t) == LET p == pend[t] IN
  CASE p.op = "listen" -> pos[p.k] > 0 [] p.op = "close" -> p.k \notin alive [] p.op = "release" -> p.k \notin refs [] p.op = "fire" -> snap[t] = <<>> /\ got[t] = 0 [] OTHER -> FALSE
Next ==
  \/ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<list, alive, refs, snap, full, got>> /\
       \/ \E t \in Threads : Call(t, "fire", 0)
       \/ \E t \in Threads : \E k \in Listeners : st[k] = "new" /\ (\A j \in Listeners : j < k => st[j] # "new") /\ Call(t, "listen", k)
       \/ \E t \in Threads, op \in {"close", "release"}, k \in Listeners : st[k] = "open" /\ Call(t, op, k)
  \/ \E t \in Threads : pend[t].st = "called" /\ Step(t)
  \/ \E t \in Threads : got[t] # 0 /\ got' = [got EXCEPT ![t] = 0] /\ (IF ENABLED Called(t, got[t]) THEN Called(t, got[t]) ELSE Assert(FALSE, "a call that is not allowed"))
       /\ UNCHANGED <<list, alive, refs, snap, full, calls>>
  \/ \E t \in Threads : pend[t].st = "called" /\ Ready(t) /\ (IF ENABLED Return(t, 0) THEN Return(t, 0) ELSE Assert(FALSE, "a return that is not allowed"))
       /\ snap' = [snap EXCEPT ![t] = NoSnap] /\ full' = [full EXCEPT ![t] = {}] /\ list' = Kept(list, refs, full') /\ UNCHANGED <<alive, refs, got, calls>>
Spec == Init /\ [][Next]_all
=============================================================================
