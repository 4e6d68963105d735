------------------------------ MODULE ListsGen ------------------------------
(* Every transition of small lists, for replay on the real code: a filtered (Flat: flattened) list (2) of a list (1). *)
(* What is seen is only the items; where the order among equal keys is free, every order is a transition.            *)
EXTENDS Lists, TLC, Json
CONSTANTS MItems, MAttr, MFilters, MSorts, MKids, MaxLevel, Flat
VARIABLE ev
Attrs == {<<c \div 10, c % 10>> : c \in MAttr}
A0 == <<Min(MAttr) \div 10, Min(MAttr) % 10>>
Init == /\ Init0([sels |-> <<>>, kind |-> <<"list", IF Flat THEN "flattened" ELSE "filtered">>, keys |-> <<"a", "b">>, src |-> <<0, 1>>,
            items |-> <<<<>>, <<>>>>, flt |-> <<0, 0>>, srt |-> <<0, 0>>, rev |-> <<FALSE, FALSE>>,
            attr |-> [i \in 1 .. Max(MItems \cup MKids) |-> A0], kids |-> [i \in 1 .. 9 |-> <<>>]])
        /\ ev = [in |-> [op |-> "init"], out |-> [items |-> <<>>]]
P1(in) == CASE in.op = "insert" -> Put(items[1], in.i, in.x) [] in.op = "remove" -> Delete(items[1], in.i) [] OTHER -> items[1]
Inputs ==
  {[op |-> "insert", n |-> 1, i |-> i, x |-> x] : i \in 0 .. Len(items[1]), x \in MItems \ ToSet(items[1])}
  \cup {[op |-> "remove", n |-> 1, i |-> i] : i \in 0 .. Len(items[1]) - 1}
  \cup (IF Flat THEN {} ELSE
     {[op |-> "attr", x |-> x, f |-> a[1], s |-> a[2]] : x \in MItems, a \in Attrs}
     \cup {[op |-> "filter", n |-> 2, k |-> k] : k \in MFilters} \cup {[op |-> "sort", n |-> 2, k |-> k] : k \in MSorts}
     \cup (IF Cardinality(MSorts) < 2 THEN {} ELSE {[op |-> "reverse", n |-> 2, b |-> b] : b \in BOOLEAN})
     \cup (IF level[2] < MaxLevel THEN {[op |-> "begin", n |-> 2]} ELSE {}) \cup (IF level[2] > 0 THEN {[op |-> "end", n |-> 2]} ELSE {}))
  \cup (IF ~Flat THEN {} ELSE
     {[op |-> "kid+", p |-> p, i |-> i, x |-> x] : p \in MItems, i \in 0 .. Cardinality(MKids), x \in MKids}
     \cup {[op |-> "kid-", p |-> p, i |-> i] : p \in MItems, i \in 0 .. Cardinality(MKids)})
Possible(in) ==
  CASE in.op = "kid+" -> in.i <= Len(kids[in.p]) /\ \A p \in MItems : in.x \notin ToSet(kids[p])
    [] in.op = "kid-" -> in.i < Len(kids[in.p])
    [] OTHER -> TRUE
Perms(S1) == {q \in [1 .. Cardinality(S1) -> S1] : Distinct(q)}
Cands(in) == IF Flat THEN {Concat(P1(in), kids'), items[2]} ELSE UNION {Perms(S1) : S1 \in SUBSET ToSet(P1(in))} \cup {items[2]}
Next == \E in \in Inputs :
  /\ Possible(in)
  /\ kids' = CASE in.op = "kid+" -> [kids EXCEPT ![in.p] = Put(@, in.i, in.x)] [] in.op = "kid-" -> [kids EXCEPT ![in.p] = Delete(@, in.i)] [] OTHER -> kids
  /\ \E q \in Cands(in) : LET o == [items |-> <<P1(in), q>>, notes |-> <<>>, sel |-> <<>>] IN
       Do(in, o) /\ ev' = [in |-> in, out |-> [items |-> o.items]]
Spec == Init /\ [][Next]_<<vars, ev>>
St == <<items, attr, kids, flt, srt, rev, level>>
Emit == PrintT("EDGE " \o ToJson(<<St, ev', <<items', attr', kids', flt', srt', rev', level'>>>>))
=============================================================================
