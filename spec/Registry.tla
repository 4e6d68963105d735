------------------------------- MODULE Registry -------------------------------
(* The component registry. reg: pairs <<component, type>>; prio: priority of each component (-1: it has none), in quarters. *)
(* Calls nest, as listeners may use the registry: stack of [op, due (notifications still to be made), res];               *)
(* a notification is <<kind, component, set of types>>, kind is 1 (registered) or 2 (unregistered).                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES reg, prio, stack
vars == <<reg, prio, stack>>
Init0(cfg) == reg = {} /\ prio = cfg.prio /\ stack = <<>>
TypesOf(c) == {p[2] : p \in {p \in reg : p[1] = c}}
Components(ty) == {p[1] : p \in {p \in reg : p[2] = ty}}
Priority(c) == IF prio[c] = -1 THEN 200 ELSE prio[c]
Best(ty) == {c \in Components(ty) : \A d \in Components(ty) : Priority(d) <= Priority(c)}
Push(due, res) == stack' = Append(stack, [due |-> due, res |-> res])
Pairs(c, T) == {<<c, ty>> : ty \in T}
Ok == "ok"
Fails == "fails"
Call(op, c, T) ==
  CASE op = "register" -> IF Pairs(c, T) \intersect reg # {} THEN Push({}, Fails) /\ UNCHANGED <<reg, prio>>
                          ELSE reg' = reg \union Pairs(c, T) /\ Push({<<1, c, T>>}, Ok) /\ UNCHANGED prio
    [] op = "unregister" -> IF ~(Pairs(c, T) \subseteq reg) THEN Push({}, Fails) /\ UNCHANGED <<reg, prio>>
                            ELSE reg' = reg \ Pairs(c, T) /\ Push({<<2, c, T>>}, Ok) /\ UNCHANGED prio
    [] op = "unregister all" -> IF TypesOf(c) = {} THEN Push({}, Fails) /\ UNCHANGED <<reg, prio>>
                                ELSE reg' = reg \ Pairs(c, TypesOf(c)) /\ Push({<<2, c, TypesOf(c)>>}, Ok) /\ UNCHANGED prio
    [] op = "existing" -> \E ty \in T : T = {ty} /\ Push({<<1, d, {ty}>> : d \in Components(ty)}, Ok) /\ UNCHANGED <<reg, prio>>
Top == stack[Len(stack)]
(* a listener is called *)
Note(k, c, T) == stack # <<>> /\ LET n == <<k, c, T>> IN n \in Top.due /\ stack' = [stack EXCEPT ![Len(stack)].due = @ \ {n}] /\ UNCHANGED <<reg, prio>>
Return(res) == stack # <<>> /\ Top.due = {} /\ Top.res = res /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<reg, prio>>
SetPriority(c, v) == prio' = [prio EXCEPT ![c] = v] /\ UNCHANGED <<reg, stack>>
(* lookups: all components by type, and the one found for each type (0: None) *)
Look(sets, best) == /\ \A ty \in 1 .. Len(sets) : sets[ty] = Components(ty) /\ (IF Components(ty) = {} THEN best[ty] = 0 ELSE best[ty] \in Best(ty)) /\ UNCHANGED vars
=============================================================================
