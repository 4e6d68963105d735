------------------------------ MODULE StreamsMC ------------------------------
(* A graph with shared inputs; whatever the order in which emissions are passed on, the streams end up with the       *)
(* values derived from their inputs.                                                                                   *)
EXTENDS Streams, TLC
CONSTANT MaxOps
VARIABLE ops
N(kind, ins, fn) == [kind |-> kind, ins |-> ins, fn |-> fn, refs |-> 1, v |-> -1, op |-> "make"]
Plan == <<N("value", <<>>, 0), N("value", <<>>, 0), N("map", <<1>>, 0), N("comb", <<3, 1>>, 0), N("concat", <<2, 1, 3>>, 0), N("concat", <<2, 3, 1>>, 1),
          N("prop", <<2>>, 0), N("comb", <<7, 5, 6>>, 1), N("map", <<4>>, 0), N("prop", <<2>>, 1)>>
Init == nodes = <<>> /\ obj = <<3, 4>> /\ q = <<>> /\ ops = 0
Calm == (\A d \in Ids : \A i \in 1 .. Len(q[d]) : q[d][i] = <<>>) /\ \A s \in Ids : ~nodes[s].due
Next ==
  \/ Len(nodes) < Len(Plan) /\ Op(Plan[Len(nodes) + 1]) /\ UNCHANGED ops
  \/ Len(nodes) = Len(Plan) /\ Calm /\ ops < MaxOps /\ ops' = ops + 1 /\
       \/ \E v \in {-1, 1, 2} : Op([op |-> "set", s |-> 1, v |-> v])
       \/ \E v \in {-1, 1, 2} : Op([op |-> "set", s |-> 2, v |-> v])
       \/ \E o \in {1, 2}, v \in {3, 5} : Op([op |-> "obj", o |-> o, v |-> v])
       \/ \E s \in Ids : nodes[s].open /\ nodes[s].refs > 0 /\ Op([op |-> "unref", s |-> s])
  \/ (\E d \in Ids : Silent(d)) /\ UNCHANGED ops
  \/ (\E d \in Ids : nodes[d].kind = "value" /\ Emit(d, nodes[d].cur, nodes[d].cur)) /\ UNCHANGED ops
  \/ (\E d \in Ids : nodes[d].kind # "value" /\ \E i \in 1 .. Len(q[d]) : q[d][i] # <<>> /\ LET v == Deliver(d, i).n.cur IN Emit(d, v, v)) /\ UNCHANGED ops
Spec == Init /\ [][Next]_<<vars, ops>>
Consistent == Calm => \A s \in Ids : (HasValue(nodes[s]) /\ ~Unknown(nodes[s])) => Same(nodes[s], nodes[s].cur, Derived(nodes[s], nodes))
(* nothing is open without a user, and no input is closed while a user is open *)
Alive == \A s \in Ids : (nodes[s].open = (Refs(nodes, s) > 0)) /\ (nodes[s].open => \A i \in 1 .. Len(nodes[s].ins) : (nodes[s].ins[i] > 0 /\ UserOf(nodes[s], nodes[s].ins[i])) => nodes[nodes[s].ins[i]].open)
=============================================================================
