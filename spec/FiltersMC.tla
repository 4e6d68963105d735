----------------------------- MODULE FiltersMC -----------------------------
(* All filters of depth at most 2 over a few leaves: they obey the laws of Boolean algebra; each with each item is a *)
(* transition for replay.                                                                                            *)
EXTENDS Filters, TLC, Json
VARIABLE ev
I(n) == [t |-> "i", v |-> <<n>>]
Str(s) == [t |-> "s", v |-> s]
Day(y, m, d) == [t |-> "d", v |-> <<y, m, d>>]
AB == <<97, 66>>
Leaves ==
  {[k |-> "default", b |-> b] : b \in BOOLEAN}
  \cup {[k |-> k, key |-> "n", v |-> I(1), c |-> c] : k \in {"eq", "ne"}, c \in {"eq", "lt", "ge"}}
  \cup {[k |-> "prefix", key |-> "s", v |-> Str(<<97>>)], [k |-> "text", key |-> "s", v |-> Str(<<98>>)], [k |-> "text", key |-> "n", v |-> Str(<<>>)]}
  \cup {[k |-> "date", key |-> "d", v |-> Day(y, m, d)] : y \in {0, 2000}, m \in {0, 2}, d \in {0, 3}}
Few == {[k |-> "default", b |-> b] : b \in BOOLEAN} \cup {[k |-> "eq", key |-> "n", v |-> I(1), c |-> "eq"], [k |-> "text", key |-> "s", v |-> Str(<<98>>)]}
One == Leaves \cup {[k |-> "not", fs |-> <<f>>] : f \in Leaves} \cup {[k |-> k, fs |-> s] : k \in {"and", "or"}, s \in {<<>>} \cup {<<f>> : f \in Few} \cup {<<f, g>> : f, g \in Few}}
Small == Few \cup {[k |-> k, fs |-> s] : k \in {"and", "or"}, s \in {<<>>} \cup {<<f, g>> : f, g \in Few}}
Filters2 == One \cup {[k |-> "not", fs |-> <<f>>] : f \in One} \cup {[k |-> k, fs |-> <<f, g>>] : k \in {"and", "or"}, f \in Small, g \in Small}
Items == {[n |-> I(n), s |-> s, d |-> d] : n \in {0, 1, 2}, s \in {Str(AB), Str(<<>>), Str(<<65, 98>>)}, d \in {Day(2000, 2, 3), Day(2001, 2, 3), Day(2000, 3, 4)}}
Init == ev = [in |-> <<>>, out |-> <<>>]
Next == \E f \in Filters2, x \in Items : ev' = [in |-> [f |-> f, x |-> x], out |-> [m |-> Matches(f, x), copy |-> Matches(f, x)]]
St == 1
Emit == PrintT("EDGE " \o ToJson(<<1, ev', 1>>))
Not(f) == [k |-> "not", fs |-> <<f>>]
Laws == \A f, g \in Small, x \in Items :
  /\ Matches(Not(Not(f)), x) = Matches(f, x)
  /\ Matches(Not([k |-> "and", fs |-> <<f, g>>]), x) = Matches([k |-> "or", fs |-> <<Not(f), Not(g)>>], x)
  /\ Matches([k |-> "and", fs |-> <<f, Not(f)>>], x) = FALSE
Spec == Init /\ [][Next]_ev
=============================================================================
