---------------------------- MODULE StructuredMC ----------------------------
(* All histories of one schema: a record with a number x and an array of records with a number y; two items are made. *)
EXTENDS Structured, TLC, Json
CONSTANTS MaxItems, MaxClosed
VARIABLE ev
mvars == <<nodes, ev>>
Fy == <<"y", <<"f", "int">>, <<"n">>>>
Item == <<"r", <<Fy>>>>
Schema == <<"r", <<<<"x", <<"f", "int">>, <<"v", 1>>>>, <<"a", <<"a", Item>>, <<"n">>>>>>>>
Root == <<[k |-> "r", names |-> <<"x", "a">>, kids |-> <<2, 3>>, open |-> TRUE], [k |-> "f", v |-> 1], [k |-> "a", prim |-> FALSE, items |-> <<>>, open |-> TRUE]>>
NewItem(N) == <<[k |-> "r", names |-> <<"y">>, kids |-> <<Len(N) + 2>>, open |-> TRUE], [k |-> "f", v |-> -1]>>
Init == nodes = Root /\ ev = [in |-> [op |-> "init"], out |-> [seen |-> TRUE]]
Fields == {n \in Ids(nodes) : nodes[n].k = "f"}
Made == {n \in Ids(nodes) : n > 3 /\ nodes[n].k = "r"}
Inputs ==
  {[op |-> "set", n |-> f, x |-> x] : f \in Fields, x \in {-1, 0, 1}}
  \cup (IF ~nodes[3].open THEN {} ELSE {[op |-> "ins", n |-> 3, i |-> i, x |-> m] : i \in 0 .. Len(nodes[3].items), m \in Made \ ToSet(nodes[3].items)}
  \cup {[op |-> "insset", n |-> 3, i |-> i, x |-> m, f |-> m + 1, y |-> 0] : i \in 0 .. Len(nodes[3].items), m \in Made \ ToSet(nodes[3].items)}
  \cup {[op |-> "rem", n |-> 3, i |-> i - 1] : i \in 1 .. Len(nodes[3].items)}
  \cup {[op |-> "remset", n |-> 3, i |-> i - 1, f |-> nodes[3].items[i] + 1, y |-> 0] : i \in 1 .. Len(nodes[3].items)})
  \cup {[op |-> "close", n |-> n] : n \in {n \in Ids(nodes) : nodes[n].k # "f" /\ nodes[n].open /\ Cardinality({m \in Ids(nodes) : nodes[m].k # "f" /\ ~nodes[m].open}) < MaxClosed}}
  \cup {[op |-> "has", n |-> 3, x |-> m] : m \in Made}
  \cup (IF Cardinality(Made) < MaxItems THEN {[op |-> "build", schema |-> Item, val |-> Absent]} ELSE {})
  \cup {[op |-> "dict", n |-> 1]}
RECURSIVE Sorted(_)
Key(e) == e[1] * 1000 + (CASE e[2] = "mc" -> 0 [] e[2] = "pc" -> 100 [] e[2] = "ins" -> 200 [] OTHER -> 300) + e[4] * 10 + e[5]
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE e \in S : \A f \in S : Key(e) <= Key(f) IN <<m>> \o Sorted(S \ {m})
RECURSIVE SortedBag(_, _)
SortedBag(S, T) == IF S = {} THEN <<>> ELSE LET m == CHOOSE e \in S : \A f \in S : Key(e) <= Key(f) IN (IF m \in T THEN <<m, m>> ELSE <<m>>) \o SortedBag(S \ {m}, T)
Look(in) ==
  LET N2 == CASE in.op = "set" -> [nodes EXCEPT ![in.n].v = in.x]
              [] in.op = "ins" -> [nodes EXCEPT ![in.n].items = Put(@, in.i, in.x)]
              [] in.op = "insset" -> [nodes EXCEPT ![in.n].items = Put(@, in.i, in.x), ![in.f].v = in.y]
              [] in.op = "rem" -> [nodes EXCEPT ![in.n].items = Delete(@, in.i)]
              [] in.op = "remset" -> [nodes EXCEPT ![in.n].items = Delete(@, in.i), ![in.f].v = in.y]
              [] in.op = "close" -> [nodes EXCEPT ![in.n].open = FALSE]
              [] in.op = "build" -> nodes \o NewItem(nodes)
              [] OTHER -> nodes
      After(m) == [nodes EXCEPT ![in.n].items = m]
      Sub(N) == IF nodes[in.f].v = in.y THEN {} ELSE SetEvents(N, in.f, in.y)
      evs == CASE in.op = "set" -> Sorted(IF nodes[in.n].v = in.x THEN {} ELSE SetEvents(nodes, in.n, in.x))
               [] in.op = "ins" -> Sorted(EditEvents(nodes, in.n, "ins", in.x, in.i))
               [] in.op = "rem" -> Sorted(EditEvents(nodes, in.n, "rem", nodes[in.n].items[in.i + 1], in.i))
               [] in.op = "insset" -> LET E == EditEvents(nodes, in.n, "ins", in.x, in.i) F == Sub(After(Put(nodes[in.n].items, in.i, in.x))) IN SortedBag(E \cup F, E \cap F)
               [] in.op = "remset" -> LET E == EditEvents(nodes, in.n, "rem", nodes[in.n].items[in.i + 1], in.i) F == Sub(After(Delete(nodes[in.n].items, in.i))) IN SortedBag(E \cup F, E \cap F)
               [] OTHER -> <<>>
  IN [nodes |-> N2, evs |-> evs, seen |-> TRUE, dict |-> IF in.op = "build" THEN Dict(N2, Len(nodes) + 1) ELSE IF in.op = "has" THEN <<"v", IF in.x \in ToSet(nodes[3].items) THEN 1 ELSE 0>> ELSE IF in.op = "dict" THEN Dict(nodes, in.n) ELSE Absent]
Next == \E in \in Inputs : LET o == Look(in) IN Do(in, o) /\ ev' = [in |-> in, out |-> o]
St == nodes
Emit == PrintT("EDGE " \o ToJson(<<nodes, ev', nodes'>>))
Spec == Init /\ [][Next]_mvars
(* building a model from the dict of a model which has all values gives that dict *)
RoundTrip == (\A f \in Fields : nodes[f].v # -1) => Built(Schema, Absent, Dict(nodes, 1)) = Dict(nodes, 1)
(* a change is announced up to its root and nowhere else *)
Upward == [][\A i \in 1 .. Len(ev'.out.evs) : LET e == ev'.out.evs[i] IN (e[2] = "mc" /\ ev'.in.op = "set") => ev'.in.n \in Below(nodes, e[1])]_mvars
=============================================================================
