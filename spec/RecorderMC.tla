------------------------------ MODULE RecorderMC ------------------------------
EXTENDS Recorder, TLC
CONSTANTS NObjs, MaxOps
VARIABLE ops
Init == /\ objs = [x \in 1 .. NObjs |-> [props |-> <<x, 0, x, 0>>, rels |-> [r \in 1 .. NR |-> <<>>], parent |-> 0]] /\ ops = 0
        /\ recs = <<[root |-> 1, on |-> TRUE, tree |-> Tree(objs, 1)]>>
Next == ops < MaxOps /\ ops' = ops + 1 /\
  \/ \E x \in Ids : SetProp(x, 1, objs[x].props[1] + 10) \/ SetProp(x, 3, objs[x].props[3] + 10)
  \/ \E x, y \in Ids, i \in 0 .. NObjs : Insert(x, 3, i, y)
  \/ \E x \in Ids, i \in 1 .. NObjs : Remove(x, 3, i)
  \/ \E x \in Ids, y \in 0 .. NObjs : SetItem(x, 1, y)
  \/ \E x \in Ids : Len(recs) < 2 /\ Start(x)
Spec == Init /\ [][Next]_<<vars, ops>>
RECURSIVE Part(_)
Part(t) == <<[p \in Recordable |-> t[1][p]], [r \in 1 .. NR |-> [k \in 1 .. Len(t[2][r]) |-> Part(t[2][r][k])]]>>
(* the changes recorded by their places reproduce the tree of objects *)
Reproduces == \A r \in 1 .. Len(recs) : recs[r].on => Part(recs[r].tree) = Part(Tree(objs, recs[r].root))
Forest == \A x \in Ids : objs[x].parent # 0 => Cardinality({<<r, k>> \in (1 .. NR) \X (1 .. NObjs) : k <= Len(objs[objs[x].parent].rels[r]) /\ objs[objs[x].parent].rels[r][k] = x}) = 1
=============================================================================
