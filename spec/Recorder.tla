------------------------------- MODULE Recorder -------------------------------
(* Recording the changes of trees of objects. objs[x] = [props, rels, parent (0: none)]; rels are two items (sequences of *)
(* at most one object) and two relationships. A tree is <<props, trees by relation>>. recs[r]: [root, on, tree], tree is  *)
(* what applying the recorder to a copy of its root made when the recorder was started gives.                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES objs, recs
vars == <<objs, recs>>
NP == 4
NR == 4
Recordable == {1, 2}       \* of the others, one is not recordable and one is read only
Init0 == objs = <<>> /\ recs = <<>>
Ids == 1 .. Len(objs)
RECURSIVE Tree(_, _)
Tree(O, x) == <<O[x].props, [r \in 1 .. NR |-> [k \in 1 .. Len(O[x].rels[r]) |-> Tree(O, O[x].rels[r][k])]]>>
RECURSIVE InTree(_, _, _)
InTree(O, top, x) == x = top \/ (O[x].parent # 0 /\ InTree(O, top, O[x].parent))
Place(O, y, x) == CHOOSE p \in {<<r, k>> : r \in 1 .. NR, k \in 1 .. 20} : p[2] <= Len(O[y].rels[p[1]]) /\ O[y].rels[p[1]][p[2]] = x
(* the way from top to x: pairs <<relation, index>> *)
RECURSIVE Path(_, _, _)
Path(O, top, x) == IF x = top THEN <<>> ELSE Append(Path(O, top, O[x].parent), Place(O, O[x].parent, x))
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* the tree with a change c made in the place path. c = [k |-> kind, ...] *)
Change(tree, c) ==
  CASE c.k = "prop" -> <<[tree[1] EXCEPT ![c.p] = c.v], tree[2]>>
    [] c.k = "ins" -> <<tree[1], [tree[2] EXCEPT ![c.r] = InsertAt(@, c.i, c.t)]>>
    [] c.k = "rem" -> <<tree[1], [tree[2] EXCEPT ![c.r] = RemoveAt(@, c.i)]>>
    [] c.k = "item" -> <<tree[1], [tree[2] EXCEPT ![c.r] = IF c.t = <<>> THEN <<>> ELSE <<c.t>>]>>
RECURSIVE ChangeAt(_, _, _)
ChangeAt(tree, path, c) ==
  IF path = <<>> THEN Change(tree, c)
  ELSE <<tree[1], [tree[2] EXCEPT ![Head(path)[1]] = [@ EXCEPT ![Head(path)[2]] = ChangeAt(@, Tail(path), c)]]>>
(* O: the objects before the change; all active recorders of a tree with x record c *)
Record(O, x, c) == recs' = [r \in 1 .. Len(recs) |-> IF recs[r].on /\ InTree(O, recs[r].root, x) THEN [recs[r] EXCEPT !.tree = ChangeAt(@, Path(O, recs[r].root, x), c)] ELSE recs[r]]

New(props) == objs' = Append(objs, [props |-> props, rels |-> [r \in 1 .. NR |-> <<>>], parent |-> 0]) /\ UNCHANGED recs
SetProp(x, p, v) ==
  /\ objs' = [objs EXCEPT ![x].props[p] = v]
  /\ IF p \in Recordable THEN Record(objs, x, [k |-> "prop", p |-> p, v |-> v]) ELSE UNCHANGED recs
(* the value of a property is changed in place, without notice: it is not recorded *)
Touch(x, p, v) == objs' = [objs EXCEPT ![x].props[p] = v] /\ UNCHANGED recs
Free(x, y) == objs[y].parent = 0 /\ ~InTree(objs, y, x)
Insert(x, r, i, y) ==
  /\ r \in 3 .. NR /\ i \in 0 .. Len(objs[x].rels[r]) /\ Free(x, y)
  /\ objs' = [objs EXCEPT ![x].rels[r] = InsertAt(@, i, y), ![y].parent = x]
  /\ Record(objs, x, [k |-> "ins", r |-> r, i |-> i, t |-> Tree(objs, y)])
Remove(x, r, i) ==
  /\ r \in 3 .. NR /\ i \in 1 .. Len(objs[x].rels[r])
  /\ objs' = [objs EXCEPT ![x].rels[r] = RemoveAt(@, i), ![objs[x].rels[r][i]].parent = 0]
  /\ Record(objs, x, [k |-> "rem", r |-> r, i |-> i])
(* y = 0: the item is cleared *)
SetItem(x, r, y) ==
  /\ r \in 1 .. 2 /\ (y # 0 => Free(x, y))
  /\ LET old == objs[x].rels[r]
         O == IF old = <<>> THEN objs ELSE [objs EXCEPT ![old[1]].parent = 0]
     IN objs' = IF y = 0 THEN [O EXCEPT ![x].rels[r] = <<>>] ELSE [O EXCEPT ![x].rels[r] = <<y>>, ![y].parent = x]
  /\ Record(objs, x, [k |-> "item", r |-> r, t |-> IF y = 0 THEN <<>> ELSE Tree(objs, y)])
Start(x) == recs' = Append(recs, [root |-> x, on |-> TRUE, tree |-> Tree(objs, x)]) /\ UNCHANGED objs
Close(r) == recs[r].on /\ recs' = [recs EXCEPT ![r].on = FALSE] /\ UNCHANGED objs
(* a copy made when recorder r was started, after applying r *)
Applied(r, tree) == tree = recs[r].tree /\ UNCHANGED vars
Seen(x, tree) == tree = Tree(objs, x) /\ UNCHANGED vars
=============================================================================
