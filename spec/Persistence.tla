---------------------------- MODULE Persistence ----------------------------
(* Trees of persistent objects, contexts and storage. Objects are                                                     *)
(*   [cls, uuid, parent, slot, props: values by property, items: object or 0 by item, rels: objects by relationship]  *)
(* Values are numbers, -1 is None. What an object writes is <<type, uuid, props, items, relationships>>, with the     *)
(* present properties as <<key, json value>>, the present items as <<name, dict>> and relationships as <<key, dicts>> *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Clauses
VARIABLES objs,
          rc,       \* context of each object which is a root, or 0
          stores,   \* storage of the roots, in the order in which they got a context: [root, on, dict, miss]:
                    \* miss is the key of a property of the root which was absent at first and has not been set since ("": none)
          subs      \* subscriptions: [ctx, obj, r, u, st, by] (by: the one which makes it when it is told of the registration, or 0)
vars == <<objs, rc, stores, subs>>
Init0 == objs = <<>> /\ rc = <<>> /\ stores = <<>> /\ subs = <<>>

P(name, key, conv, def, valid, ro) == [name |-> name, key |-> key, conv |-> conv, def |-> def, valid |-> valid, ro |-> ro]
Class ==
  [a |-> [props |-> <<P("p", "p", 0, -1, FALSE, FALSE), P("q", "q_key", 100, 3, FALSE, FALSE), P("v", "v", 0, 0, TRUE, FALSE), P("c", "c_key", 0, -1, FALSE, FALSE),
                      P("r", "r", 0, 7, FALSE, TRUE), P("h", "hh", 0, -1, FALSE, FALSE), P("m", "m_key", 0, -1, FALSE, FALSE), P("w", "w_key", 1000, -1, FALSE, FALSE)>>,
          items |-> <<"i", "hi">>, rels |-> <<<<"s", "s">>, <<"t", "t_key">>>>],
   b |-> [props |-> <<P("p", "pp", 0, 1, FALSE, FALSE), P("x", "x", 0, 0, FALSE, FALSE)>>,   \* x: kept by the object itself
          items |-> <<"j">>, rels |-> <<<<"s", "ss">>>>],
   c |-> [props |-> <<P("p", "pk", 0, -1, FALSE, FALSE)>>, items |-> <<"i">>, rels |-> <<<<"s", "ss">>>>],
   d |-> [props |-> <<>>, items |-> <<>>, rels |-> <<>>]]
Props(o) == Class[o.cls].props
ItemNames(o) == Class[o.cls].items
Rels(o) == Class[o.cls].rels
PropIx(o, name) == CHOOSE i \in 1 .. Len(Props(o)) : Props(o)[i].name = name
ItemIx(o, name) == CHOOSE i \in 1 .. Len(ItemNames(o)) : ItemNames(o)[i] = name
RelIx(o, name) == CHOOSE i \in 1 .. Len(Rels(o)) : Rels(o)[i][1] = name
Valid(p, x) == IF ~p.valid \/ x = -1 THEN x ELSE IF x > 5 THEN 5 ELSE x

Ids(O) == 1 .. Len(O)
Kids(O, x) == ((ToSet(O[x].items) \ {0}) \cup UNION {ToSet(O[x].rels[i]) : i \in 1 .. Len(O[x].rels)})
RECURSIVE Below(_, _)
Below(O, x) == {x} \cup UNION {Below(O, y) : y \in Kids(O, x)}
RECURSIVE Root(_, _)
Root(O, x) == IF O[x].parent = 0 THEN x ELSE Root(O, O[x].parent)
RECURSIVE Above(_, _)
Above(O, x) == {x} \cup IF O[x].parent = 0 THEN {} ELSE Above(O, O[x].parent)
Ctx(O, R, x) == R[Root(O, x)]
InCtx(O, R, c) == {x \in Ids(O) : Ctx(O, R, x) = c}

RECURSIVE DictBy(_, _, _, _)
(* withDefault: what a copy that was read will write; withUuid *)
DictBy(O, x, withDefault, withUuid) ==
  LET o == O[x]
      Val(i) == IF o.props[i] = -1 /\ withDefault THEN Props(o)[i].def ELSE o.props[i]
      props == [i \in 1 .. Len(Props(o)) |-> <<Props(o)[i].key, IF Val(i) = -1 THEN -1 ELSE Val(i) + Props(o)[i].conv>>]
      items == [i \in 1 .. Len(ItemNames(o)) |-> <<ItemNames(o)[i], o.items[i]>>]
      present == SelectSeq(items, LAMBDA p : p[2] # 0)
  IN <<o.cls, IF withUuid THEN o.uuid ELSE 0, SelectSeq(props, LAMBDA p : p[2] # -1),
       [i \in 1 .. Len(present) |-> <<present[i][1], DictBy(O, present[i][2], withDefault, withUuid)>>],
       [i \in 1 .. Len(Rels(o)) |-> <<Rels(o)[i][2], [k \in 1 .. Len(o.rels[i]) |-> DictBy(O, o.rels[i][k], withDefault, withUuid)]>>]>>
Dict(O, x) == DictBy(O, x, FALSE, TRUE)

WellFormed(O) == \A x \in Ids(O) :
  /\ \A i \in 1 .. Len(ItemNames(O[x])) : O[x].items[i] # 0 => O[O[x].items[i]].parent = x /\ O[O[x].items[i]].slot = ItemNames(O[x])[i]
  /\ \A i \in 1 .. Len(Rels(O[x])) : \A y \in ToSet(O[x].rels[i]) : O[y].parent = x /\ O[y].slot = Rels(O[x])[i][1]
  /\ O[x].parent # 0 => x \in Kids(O, O[x].parent)

Fresh(cls, uuid) == [cls |-> cls, uuid |-> uuid, parent |-> 0, slot |-> "", props |-> [i \in 1 .. Len(Class[cls].props) |-> Class[cls].props[i].def],
                     items |-> [i \in 1 .. Len(Class[cls].items) |-> 0], rels |-> [i \in 1 .. Len(Class[cls].rels) |-> <<>>]]
Put(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Hang(O, x, parent, slot) == [O EXCEPT ![x].parent = parent, ![x].slot = slot]

(* the objects after an operation *)
After(O, in) ==
  CASE in.op = "setp" -> LET i == PropIx(O[in.o], in.name) IN [O EXCEPT ![in.o].props[i] = Valid(Props(O[in.o])[i], in.x)]
    [] in.op = "seti" -> LET i == ItemIx(O[in.o], in.name)
                             old == O[in.o].items[i]
                             O1 == IF old = 0 THEN O ELSE Hang(O, old, 0, "")
                             O2 == [O1 EXCEPT ![in.o].items[i] = in.x]
                         IN IF in.x = 0 THEN O2 ELSE Hang(O2, in.x, in.o, in.name)
    [] in.op = "ins" -> LET i == RelIx(O[in.o], in.name) IN Hang([O EXCEPT ![in.o].rels[i] = Put(@, in.i, in.x)], in.x, in.o, in.name)
    [] in.op = "ext" -> LET i == RelIx(O[in.o], in.name)
                            O1 == [O EXCEPT ![in.o].rels[i] = @ \o in.xs] IN
                        [x \in Ids(O) |-> IF x \in ToSet(in.xs) THEN [O1[x] EXCEPT !.parent = in.o, !.slot = in.name] ELSE O1[x]]
    [] in.op = "rem" -> LET i == RelIx(O[in.o], in.name) IN Hang([O EXCEPT ![in.o].rels[i] = Without(@, in.x)], in.x, 0, "")
    [] OTHER -> O
Stored(in) == LET i == PropIx(objs[in.o], in.name) IN Valid(Props(objs[in.o])[i], in.x)
Changes(in) == IF in.op = "ext" THEN in.xs # <<>> ELSE in.op \in {"setp", "seti", "ins", "rem"}

Storage(c) == "storage" \in Clauses => c
RoundTrip(c) == "roundtrip" \in Clauses => c
Registered(c) == "registry" \in Clauses => c
Modified(c) == "modified" \in Clauses => c

Added == {x \in Ids(objs') : Ctx(objs', rc', x) # 0 /\ (x > Len(objs) \/ Ctx(objs, rc, x) # Ctx(objs', rc', x))}
Removed == {x \in Ids(objs) : Ctx(objs, rc, x) # 0 /\ Ctx(objs, rc, x) # Ctx(objs', rc', x)}
(* a subscription is to a uuid: the object is the one with that uuid which came into the context *)
Come(s) == {x \in Added : objs'[x].uuid = objs[s.obj].uuid /\ Ctx(objs', rc', x) = s.ctx}
SubsAfter(S) == [k \in 1 .. Len(S) |->
   IF (S[k].st = "waiting" \/ (S[k].st = "later" /\ S[S[k].by].st = "waiting")) /\ Come(S[k]) # {} THEN [S[k] EXCEPT !.st = "registered", !.obj = CHOOSE x \in Come(S[k]) : TRUE]
   ELSE IF S[k].st = "registered" /\ S[k].obj \in Removed /\ Ctx(objs, rc, S[k].obj) = S[k].ctx THEN [S[k] EXCEPT !.st = "done"] ELSE S[k]]
Told(S, S2) == {<<k, "r", S2[k].obj>> : k \in {k \in 1 .. Len(S) : S[k].st \in {"waiting", "later"} /\ S2[k].st = "registered" /\ S[k].r}}
          \cup {<<k, "u", S[k].obj>> : k \in {k \in 1 .. Len(S) : S[k].st = "registered" /\ S2[k].st = "done" /\ S[k].u}}
Exactly(q, E) == Len(q) = Cardinality(E) /\ ToSet(q) = E

(* what is observed of the objects, contexts and storage; often: an object whose registration may be told twice (it was in the context before it *)
(* was given its uuid), or 0                                                                                                                      *)
SeenBy(obs, often) ==
  /\ objs' = obs.objs
  /\ WellFormed(obs.objs)
  /\ Storage(stores' = obs.stores)
  /\ Registered(/\ \A x \in Ids(objs') : obs.ctxs[x] = Ctx(objs', rc', x)
                /\ \A c \in 1 .. 2 : Exactly(obs.regd[c], InCtx(objs', rc', c))
                /\ LET first == SelectSeq([k \in 1 .. Len(obs.events) |-> IF k > 1 /\ obs.events[k][3] = often /\ obs.events[k - 1] = obs.events[k] THEN <<0, 0, 0, 0>> ELSE obs.events[k]], LAMBDA e : e[1] # 0) IN
                   Exactly(first, {<<Ctx(objs', rc', x), 1, x, 1>> : x \in Added} \cup {<<Ctx(objs, rc, x), -1, x, 1>> : x \in Removed})
                (* an object is told itself when its context changes *)
                /\ Exactly(obs.own, {<<x, Ctx(objs', rc', x)>> : x \in Added \cup Removed}))
Seen(obs) == SeenBy(obs, 0)
Tell(obs, S) == Registered(Exactly(obs.told, Told(S, subs')))
Lacking(d, key) == [d EXCEPT ![3] = SelectSeq(@, LAMBDA p : p[1] # key)]
Miss(s, in) == IF in.op = "setp" /\ in.o = s.root /\ Props(objs[in.o])[PropIx(objs[in.o], in.name)].key = s.miss THEN "" ELSE s.miss
StoresAfter(in) == [k \in 1 .. Len(stores) |->
  IF stores[k].on THEN [stores[k] EXCEPT !.dict = Lacking(Dict(objs', stores[k].root), Miss(stores[k], in)), !.miss = Miss(stores[k], in)] ELSE stores[k]]
(* the changed functions called: <<object, name, value, 0>>, <<object, item, old, new>>, <<object, relationship, index, object>> *)
Calls(in) ==
  CASE in.op = "setp" -> IF in.name = "x" THEN <<>> ELSE <<<<in.o, in.name, Stored(in), 0>>>>
    [] in.op = "seti" -> <<<<in.o, in.name, objs[in.o].items[ItemIx(objs[in.o], in.name)], in.x>>>>
    [] in.op = "ins" -> <<<<in.o, in.name, in.i, in.x>>>>
    [] in.op = "ext" -> LET n == Len(objs[in.o].rels[RelIx(objs[in.o], in.name)]) IN [k \in 1 .. Len(in.xs) |-> <<in.o, in.name, n + k - 1, in.xs[k]>>]
    [] in.op = "rem" -> LET s == objs[in.o].rels[RelIx(objs[in.o], in.name)] IN <<<<in.o, in.name, (CHOOSE i \in 1 .. Len(s) : s[i] = in.x) - 1, in.x>>>>
Quiet(obs) == Modified(obs.more = <<>> /\ obs.odd = <<>> /\ obs.calls = <<>>)
(* objects which were read: the functions of items and relationships are called for what they have *)
ReadCalls(O, from) ==
  UNION {{<<x, ItemNames(O[x])[i], 0, O[x].items[i]>> : i \in {i \in 1 .. Len(O[x].items) : O[x].items[i] # 0}}
         \cup UNION {{<<x, Rels(O[x])[i][1], k - 1, O[x].rels[i][k]>> : k \in 1 .. Len(O[x].rels[i])} : i \in 1 .. Len(O[x].rels)} : x \in from .. Len(O)}
NoChange == UNCHANGED <<objs, rc, stores>>

Do(in, obs) ==
  CASE in.op = "new" ->
         /\ objs' = Append(objs, Fresh(in.cls, obs.objs[Len(objs) + 1].uuid)) /\ rc' = Append(rc, 0) /\ UNCHANGED <<stores, subs>>
         /\ \A x \in Ids(objs) : objs[x].uuid # objs'[Len(objs')].uuid
         /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
    [] Changes(in) ->
         /\ objs' = After(objs, in) /\ UNCHANGED rc
         /\ stores' = StoresAfter(in) /\ subs' = SubsAfter(subs)
         /\ Seen(obs) /\ Tell(obs, subs)
         /\ Modified(/\ Exactly(obs.more, Above(objs, in.o)) /\ obs.odd = <<>>
                     /\ obs.calls = Calls(in))
    [] in.op = "ext" /\ in.xs = <<>> -> NoChange /\ UNCHANGED subs /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
    [] in.op = "setro" -> NoChange /\ UNCHANGED subs /\ Seen(obs) /\ Tell(obs, subs) /\ Modified(obs.refused /\ obs.more = <<>> /\ obs.odd = <<>> /\ obs.calls = <<>>)
    [] in.op = "get" -> NoChange /\ UNCHANGED subs /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
                        /\ Modified(obs.val = objs[in.o].props[PropIx(objs[in.o], in.name)])
    [] in.op = "req" -> (* requests through the context reach the storage of the tree *)
         NoChange /\ UNCHANGED subs /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
         /\ Storage(obs.val \in 1 .. Len(stores) /\ stores[obs.val].on /\ stores[obs.val].root = Root(objs, in.o))
    [] in.op = "ctx" ->
         /\ UNCHANGED objs /\ rc' = [rc EXCEPT ![in.o] = in.c]
         /\ stores' = IF in.c = 0 THEN [k \in 1 .. Len(stores) |-> IF stores[k].root = in.o THEN [stores[k] EXCEPT !.on = FALSE] ELSE stores[k]]
                      ELSE Append(stores, [root |-> in.o, on |-> TRUE, dict |-> Lacking(Dict(objs, in.o), in.miss), miss |-> in.miss])
         /\ subs' = SubsAfter(subs)
         /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
    [] in.op = "sub" ->
         LET new == [ctx |-> in.c, obj |-> in.o, r |-> in.r, u |-> in.u, st |-> "waiting", by |-> 0]
             S == subs \o <<new>> \o (IF in.nest THEN <<[new EXCEPT !.st = "later", !.by = Len(subs) + 1]>> ELSE <<>>) IN
         /\ NoChange
         /\ subs' = IF Ctx(objs, rc, in.o) = in.c THEN [k \in 1 .. Len(S) |-> IF k > Len(subs) THEN [S[k] EXCEPT !.st = "registered"] ELSE S[k]] ELSE S
         /\ Seen(obs) /\ Tell(obs, S) /\ Quiet(obs)
    [] in.op = "write" -> NoChange /\ UNCHANGED subs /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs) /\ RoundTrip(obs.dict = Dict(objs, in.o))
    [] in.op \in {"read", "copy"} ->
         /\ Len(obs.objs) > Len(objs) /\ SubSeq(obs.objs, 1, Len(objs)) = objs
         /\ objs' = obs.objs /\ rc' = rc \o [k \in 1 .. Len(obs.objs) - Len(objs) |-> 0] /\ UNCHANGED <<stores, subs>>
         /\ Seen(obs) /\ Tell(obs, subs) /\ Quiet(obs)
         /\ RoundTrip(LET x == Len(objs) + 1 IN
              /\ objs'[x].parent = 0 /\ Dict(objs', x) = obs.dict
              /\ \A y \in x .. Len(objs') : obs.ctxs[y] = 0
              /\ IF in.op = "read" THEN obs.dict = DictBy(objs, in.o, TRUE, TRUE) /\ Exactly(obs.rcalls, ReadCalls(objs', x)) /\ obs.times   \* times: the modified times are those read
                 ELSE /\ DictBy(objs', x, FALSE, FALSE) = DictBy(objs, in.o, FALSE, FALSE)
                      /\ \A y \in x .. Len(objs') : \A z \in Ids(objs') : z # y => objs'[z].uuid # objs'[y].uuid)
    [] in.op = "load" -> (* an object for what storage k (which nothing uses) has: read, and given a context, in either order *)
         LET x == Len(objs) + 1 new == Len(obs.objs) - Len(objs) IN
         /\ ~stores[in.k].on /\ new > 0 /\ SubSeq(obs.objs, 1, Len(objs)) = objs
         /\ objs' = obs.objs /\ rc' = rc \o [k \in 1 .. new |-> IF k = 1 THEN in.c ELSE 0]
         /\ objs'[x].parent = 0 /\ \A y \in x + 1 .. Len(objs') : objs'[y].parent >= x
         /\ stores' = Append(stores, [root |-> x, on |-> TRUE, dict |-> stores[in.k].dict, miss |-> ""])
         /\ subs' = SubsAfter(subs)
         /\ SeenBy(obs, IF in.via = 1 THEN x ELSE 0) /\ Tell(obs, subs) /\ Quiet(obs)
         /\ Storage(Dict(objs', x) = stores[in.k].dict) /\ RoundTrip(Dict(objs', x) = stores[in.k].dict /\ obs.dict = stores[in.k].dict /\ obs.times /\ Exactly(obs.rcalls, ReadCalls(objs', x)))
    [] OTHER -> FALSE
=============================================================================
