----------------------------- MODULE Structured -----------------------------
(* Structured models: a forest of fields, records and arrays. A node is                                              *)
(*   [k |-> "f", v]  |  [k |-> "r", names, kids, open]  |  [k |-> "a", prim, items, open]                            *)
(* (items are numbers, or nodes; a node which is not open has been closed: it no longer listens to those in it)      *)
(* A dict value is <<"n">> (absent), <<"v", number>>, <<"r", <<name, value>> ...>> or <<"a", values>>.               *)
(* A schema is <<"f", type>>, <<"r", <<name, schema, default>> ...>> or <<"a", schema>>.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Clauses
VARIABLE nodes
vars == <<nodes>>
Init0 == nodes = <<>>

Ids(N) == 1 .. Len(N)
Kids(N, n) == CASE N[n].k = "f" -> {} [] N[n].k = "r" -> ToSet(N[n].kids) [] N[n].k = "a" -> IF N[n].prim THEN {} ELSE ToSet(N[n].items)
RECURSIVE Below(_, _)
Below(N, n) == {n} \cup UNION {Below(N, m) : m \in Kids(N, n)}
RECURSIVE Heard(_, _)
Heard(N, n) == {n} \cup IF N[n].k # "f" /\ N[n].open THEN UNION {Heard(N, m) : m \in Kids(N, n)} ELSE {}
Above(N, n) == {m \in Ids(N) : n \in Heard(N, m)}   \* with n
Owners(N, n) == {m \in Ids(N) : N[m].k = "r" /\ N[m].open /\ n \in ToSet(N[m].kids)}
Name(N, m, n) == N[m].names[CHOOSE i \in 1 .. Len(N[m].kids) : N[m].kids[i] = n]

Absent == <<"n">>
RECURSIVE Dict(_, _)
Dict(N, n) ==
  CASE N[n].k = "f" -> IF N[n].v = -1 THEN Absent ELSE <<"v", N[n].v>>
    [] N[n].k = "r" -> LET all == [i \in 1 .. Len(N[n].kids) |-> <<N[n].names[i], Dict(N, N[n].kids[i])>>] IN <<"r", SelectSeq(all, LAMBDA p : p[2][1] # "n")>>
    [] N[n].k = "a" -> <<"a", [i \in 1 .. Len(N[n].items) |-> IF N[n].prim THEN <<"v", N[n].items[i]>> ELSE Dict(N, N[n].items[i])]>>

Lookup(d, name) == IF d[1] = "n" THEN Absent ELSE IF \E i \in 1 .. Len(d[2]) : d[2][i][1] = name THEN d[2][CHOOSE i \in 1 .. Len(d[2]) : d[2][i][1] = name][2] ELSE Absent
RECURSIVE Built(_, _, _)
(* the dict of a model built from the schema with a default and a value *)
Built(s, def, val) ==
  CASE s[1] = "f" -> IF val[1] # "n" THEN val ELSE def
    [] s[1] = "r" -> LET Field(f) == LET v == Lookup(val, f[1]) IN Built(f[2], f[3], IF v[1] # "n" THEN v ELSE Lookup(def, f[1]))
                         all == [i \in 1 .. Len(s[2]) |-> <<s[2][i][1], Field(s[2][i])>>]
                     IN <<"r", SelectSeq(all, LAMBDA p : p[2][1] # "n")>>
    [] s[1] = "a" -> LET v == IF val[1] # "n" THEN val ELSE IF def[1] # "n" THEN def ELSE <<"a", <<>>>> IN <<"a", [i \in 1 .. Len(v[2]) |-> Built(s[2], Absent, v[2][i])]>>

RECURSIVE Merged(_, _, _)
(* the dict of a model after reading a dict: fields which it lacks stay as they are (items of arrays have all values) *)
Merged(N, n, val) ==
  IF N[n].k # "r" THEN val
  ELSE LET Field(i) == LET v == Lookup(val, N[n].names[i]) IN IF v[1] = "n" THEN Dict(N, N[n].kids[i]) ELSE Merged(N, N[n].kids[i], v)
           all == [i \in 1 .. Len(N[n].kids) |-> <<N[n].names[i], Field(i)>>]
       IN <<"r", SelectSeq(all, LAMBDA p : p[2][1] # "n")>>

(* events: <<node, kind, name, value or item, index>> *)
Changed(N, n) == {<<m, "mc", "", 0, 0>> : m \in Above(N, n)}
SetEvents(N, f, x) == {<<f, "pc", "value", x, 0>>} \cup {<<m, "pc", Name(N, m, f), x, 0>> : m \in Owners(N, f)} \cup Changed(N, f)
EditEvents(N, a, kind, x, i) == {<<a, kind, "items", x, i>>} \cup {<<m, kind, Name(N, m, a), x, i>> : m \in Owners(N, a)} \cup Changed(N, a)
Count(q, e) == Cardinality({i \in 1 .. Len(q) : q[i] = e})
Exactly(q, E) == Len(q) = Cardinality(E) /\ ToSet(q) = E
ExactlyBoth(q, E, F) == Len(q) = Cardinality(E) + Cardinality(F) /\ ToSet(q) = E \cup F /\ \A e \in E \cap F : Count(q, e) = 2

Put(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Delete(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
RECURSIVE Script(_, _)
(* the items after the edits, or <<-9>> if one of them does not fit *)
Script(items, edits) ==
  IF edits = <<>> THEN items
  ELSE LET e == Head(edits) IN
       IF e[2] = "ins" THEN IF e[5] \in 0 .. Len(items) THEN Script(Put(items, e[5], e[4]), Tail(edits)) ELSE <<-9>>
       ELSE IF e[5] \in 0 .. Len(items) - 1 /\ items[e[5] + 1] = e[4] THEN Script(Delete(items, e[5]), Tail(edits)) ELSE <<-9>>

(* any change of existing nodes to those of N2, with its events (the number of model_changed events is free) *)
ReadEvents(N, N2, evs) ==
  LET edited == {n \in Ids(N) : N[n] # N2[n]}
      Edits(m, name) == SelectSeq(evs, LAMBDA e : e[1] = m /\ e[2] \in {"ins", "rem"} /\ e[3] = name)
  IN /\ \A n \in Ids(N) : (Count(evs, <<n, "mc", "", 0, 0>>) > 0) = (\E m \in Heard(N, n) : m \in edited)
     /\ \A f \in {n \in Ids(N) : N[n].k = "f"} :
          /\ Count(evs, <<f, "pc", "value", N2[f].v, 0>>) = IF f \in edited THEN 1 ELSE 0
          /\ \A m \in Owners(N, f) : Count(evs, <<m, "pc", Name(N, m, f), N2[f].v, 0>>) = IF f \in edited THEN 1 ELSE 0
     /\ \A a \in {n \in Ids(N) : N[n].k = "a"} :
          /\ Script(N[a].items, Edits(a, "items")) = N2[a].items
          /\ (a \notin edited => Edits(a, "items") = <<>>)
          /\ \A m \in Owners(N, a) : [i \in 1 .. Len(Edits(m, Name(N, m, a))) |-> SubSeq(Edits(m, Name(N, m, a))[i], 4, 5)]
                                     = [i \in 1 .. Len(Edits(a, "items")) |-> SubSeq(Edits(a, "items")[i], 4, 5)]
     /\ \A i \in 1 .. Len(evs) : LET e == evs[i] IN
          \/ e[2] = "mc" /\ e[1] \in Ids(N)
          \/ e[2] = "pc" /\ N[e[1]].k = "f" /\ e[3] = "value" /\ e[4] = N2[e[1]].v
          \/ e[2] = "pc" /\ N[e[1]].k = "r" /\ \E j \in 1 .. Len(N[e[1]].kids) : N[e[1]].names[j] = e[3] /\ N[N[e[1]].kids[j]].k = "f"
          \/ e[2] \in {"ins", "rem"} /\ N[e[1]].k = "a" /\ e[3] = "items"
          \/ e[2] \in {"ins", "rem"} /\ N[e[1]].k = "r" /\ \E j \in 1 .. Len(N[e[1]].kids) : N[e[1]].names[j] = e[3] /\ N[N[e[1]].kids[j]].k = "a"

Events(cond) == "events" \in Clauses => cond
Dicts(cond) == "dict" \in Clauses => cond
(* obs: [nodes: all nodes, dict: of the node concerned, evs, seen: observers saw the change made] *)
Grown(obs) == Len(obs.nodes) >= Len(nodes) /\ SubSeq(obs.nodes, 1, Len(nodes)) = nodes

Do(in, obs) ==
  /\ nodes' = obs.nodes
  /\ Events(obs.seen)
  /\ CASE in.op = "build" -> Grown(obs) /\ Events(obs.evs = <<>>) /\ Dicts(obs.dict = Built(in.schema, Absent, in.val) /\ Dict(nodes', Len(nodes) + 1) = obs.dict)
       [] in.op = "copy" -> Grown(obs) /\ Events(obs.evs = <<>>) /\ Dicts(obs.dict = Dict(nodes, in.n) /\ Dict(nodes', Len(nodes) + 1) = obs.dict)
       [] in.op = "dict" -> nodes' = nodes /\ Events(obs.evs = <<>>) /\ Dicts(obs.dict = Dict(nodes, in.n))
       [] in.op = "has" -> nodes' = nodes /\ Events(obs.evs = <<>>) /\ Dicts(obs.dict = <<"v", IF in.x \in ToSet(nodes[in.n].items) THEN 1 ELSE 0>>)
       [] in.op = "close" -> nodes' = [nodes EXCEPT ![in.n].open = FALSE] /\ Events(obs.evs = <<>>)
       [] in.op = "set" -> /\ nodes' = [nodes EXCEPT ![in.n].v = in.x]
                           /\ Events(Exactly(obs.evs, IF nodes[in.n].v = in.x THEN {} ELSE SetEvents(nodes, in.n, in.x)))
       [] in.op = "ins" -> /\ nodes' = [nodes EXCEPT ![in.n].items = Put(@, in.i, in.x)]
                           /\ Events(Exactly(obs.evs, EditEvents(nodes, in.n, "ins", in.x, in.i)))
       [] in.op = "insset" -> LET after == [nodes EXCEPT ![in.n].items = Put(@, in.i, in.x)] IN
            (* an observer of the insertion sets a field of the new item *)
            /\ nodes' = [after EXCEPT ![in.f].v = in.y]
            /\ Events(ExactlyBoth(obs.evs, EditEvents(nodes, in.n, "ins", in.x, in.i), IF after[in.f].v = in.y THEN {} ELSE SetEvents(after, in.f, in.y)))
       [] in.op = "rem" -> /\ nodes' = [nodes EXCEPT ![in.n].items = Delete(@, in.i)]
                           /\ Events(Exactly(obs.evs, EditEvents(nodes, in.n, "rem", nodes[in.n].items[in.i + 1], in.i)))
       [] in.op = "remset" -> LET x == nodes[in.n].items[in.i + 1] after == [nodes EXCEPT ![in.n].items = Delete(@, in.i)] IN
            /\ nodes' = [after EXCEPT ![in.f].v = in.y]
            /\ Events(ExactlyBoth(obs.evs, EditEvents(nodes, in.n, "rem", x, in.i), IF after[in.f].v = in.y THEN {} ELSE SetEvents(after, in.f, in.y)))
       [] in.op = "clear" -> /\ nodes' = [nodes EXCEPT ![in.n].items = <<>>]
                             /\ Events(ReadEvents(nodes, nodes', obs.evs))
       [] in.op = "read" -> (* from_dict_value, copy_from *)
            /\ Len(obs.nodes) >= Len(nodes)
            /\ \A n \in Ids(nodes) \ Below(nodes, in.n) : nodes'[n] = nodes[n]
            /\ Events(ReadEvents(nodes, SubSeq(nodes', 1, Len(nodes)), obs.evs))
            /\ Dicts(LET d == Merged(nodes, in.n, in.val) IN Dict(nodes', in.n) = d /\ obs.dict = d)
       [] OTHER -> FALSE
=============================================================================
