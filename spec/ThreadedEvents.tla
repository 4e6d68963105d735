---------------------------- MODULE ThreadedEvents ----------------------------
(* An event with listeners attached, closed and released, and fired, by threads.                                        *)
(* pos[k]: place of listener k in the order of attaching (0: not yet); st[k]: new, attaching, open, closing, released,   *)
(* closed. A listener released while the event is being fired may be kept alive by those firings (hold[k]), and by       *)
(* others that start meanwhile; it is closed when they have ended.                                                       *)
(* pend[t]: [op, st, k, must, never, called (by this firing), at (place of the last one called)]                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pos, st, pend, n, hold
vars == <<pos, st, pend, n, hold>>
Idle == [op |-> "", st |-> "idle", k |-> 0, must |-> {}, never |-> {}, called |-> {}, at |-> 0]
Init0(cfg) == pos = [k \in 1 .. cfg.listeners |-> 0] /\ st = [k \in 1 .. cfg.listeners |-> "new"] /\ pend = [t \in 1 .. cfg.threads |-> Idle] /\ n = 0 /\ hold = [k \in 1 .. cfg.listeners |-> {}]
Threads == DOMAIN pend
Listeners == DOMAIN st
Call(t, op, k) ==
  /\ pend[t].st = "idle"
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.st = "called", !.k = k, !.must = {x \in Listeners : st[x] = "open"}, !.never = {x \in Listeners : st[x] = "closed"}]]
  /\ CASE op = "listen" -> st[k] = "new" /\ st' = [st EXCEPT ![k] = "attaching"]
       [] op \in {"close", "release"} -> st' = [st EXCEPT ![k] = IF @ = "open" THEN "closing" ELSE @]
       [] OTHER -> UNCHANGED st
  /\ hold' = [x \in Listeners |-> IF op = "fire" /\ st[x] = "released" THEN hold[x] \union {t} ELSE hold[x]]
  /\ UNCHANGED <<pos, n>>
Lin(t) == pend[t].st = "called" /\ pend[t].op = "listen" /\ pos[pend[t].k] = 0 /\ n' = n + 1 /\ pos' = [pos EXCEPT ![pend[t].k] = n + 1] /\ UNCHANGED <<st, pend, hold>>
Called(t, k) ==
  /\ pend[t].op = "fire" /\ pend[t].st = "called" /\ k \notin pend[t].never /\ k \notin pend[t].called /\ pos[k] > pend[t].at
  /\ pend' = [pend EXCEPT ![t].called = @ \union {k}, ![t].at = pos[k]] /\ UNCHANGED <<pos, st, n, hold>>
Return(t, res) ==
  /\ res = 0 /\ pend[t].st = "called" /\ LET p == pend[t] IN
       CASE p.op = "listen" -> pos[p.k] > 0 /\ st' = [st EXCEPT ![p.k] = "open"] /\ UNCHANGED hold
         [] p.op = "close" -> st' = [st EXCEPT ![p.k] = "closed"] /\ UNCHANGED hold
         [] p.op = "release" -> LET h == {x \in Threads : pend[x].op = "fire"} IN hold' = [hold EXCEPT ![p.k] = h] /\ st' = [st EXCEPT ![p.k] = IF h = {} THEN "closed" ELSE "released"]
         [] p.op = "fire" -> /\ {k \in p.must : st[k] = "open"} \subseteq p.called
                             /\ hold' = [k \in Listeners |-> hold[k] \ {t}]
                             /\ st' = [k \in Listeners |-> IF st[k] = "released" /\ hold[k] \subseteq {t} THEN "closed" ELSE st[k]]
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<pos, n>>
End(stuck) == stuck = 0 /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED vars
=============================================================================
