---------------------------- MODULE SelectionMC ----------------------------
EXTENDS Selection, TLC, Json
CONSTANT N
VARIABLE ev
Idx == 0 .. N-1
Inputs ==
  [op : {"set", "add", "remove", "toggle", "extend", "insert_index", "remove_index"}, i : Idx]
  \cup {[op |-> "clear"]} \cup [op : {"add_range"}, a : Idx, b : 0 .. N] \cup {[op |-> "set_multiple", s |-> Sorted(S)] : S \in SUBSET Idx}
(* everything that could be seen; Do picks what is allowed *)
Look(S, a, f, sn) == [sel |-> Sorted(S), anchor |-> a, cur |-> IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE -1, has |-> S # {},
  contains |-> Sorted(S), ordered |-> IF a \in S THEN <<a>> \o Sorted(S \ {a}) ELSE Sorted(S), fired |-> f, same |-> TRUE, seen |-> IF f = 0 THEN <<>> ELSE Sorted(S)]
Small == 0 .. N
Outs == {Look(S, a, f, S) : S \in SUBSET Small, a \in -1 .. N, f \in 0 .. 1}
Init == \E s \in Styles : Init0(s) /\ ev = [in |-> [op |-> "init"], out |-> [fired |-> 0]]
Next == \E in \in Inputs, o \in Outs : Do(in, o) /\ ev' = [in |-> in, out |-> o]
St == <<style, Sorted(sel), anchor>>
Emit == PrintT("EDGE " \o ToJson(<<St, ev', <<style', Sorted(sel'), anchor'>>>>))
Bounded == sel \subseteq Small /\ anchor <= N
Spec == Init /\ [][Next]_<<vars, ev>>
KeepSingle == [][KeepsSingle(ev'.in)]_<<vars, ev>>
FireIffChanged == [][ev'.in.op \notin {"insert_index", "remove_index", "add_range"} => (ev'.out.fired = 1 <=> sel' # sel)]_<<vars, ev>>
=============================================================================
