---------------------------- MODULE ObservablesMC ----------------------------
EXTENDS Observables, TLC, Json
CONSTANTS MaxListeners, NObjs
VARIABLE ev
mvars == <<ls, ev>>
Init == Init0 /\ ev = [in |-> [op |-> "init"], out |-> [calls |-> <<>>]]
Inputs ==
  (IF Len(ls) < MaxListeners THEN {[op |-> "listen", o |-> o, k |-> k] : o \in 1 .. NObjs, k \in Kinds} ELSE {})
  \cup {[op |-> "close", l |-> l] : l \in {l \in 1 .. Len(ls) : ls[l].live}}
  \cup {[op |-> "notify", o |-> o, k |-> k, key |-> "a", x |-> 1, i |-> 0] : o \in 1 .. NObjs, k \in Kinds}
Look(in) == [calls |-> IF in.op = "notify" THEN [i \in 1 .. Len(Listening(in.o, in.k)) |-> <<Listening(in.o, in.k)[i], Args(in)>>] ELSE <<>>]
Next == \E in \in Inputs : LET o == Look(in) IN Do(in, o) /\ ev' = [in |-> in, out |-> o]
St == ls
Emit == PrintT("EDGE " \o ToJson(<<ls, ev', ls'>>))
Spec == Init /\ [][Next]_mvars
(* a call reaches each live listener of that object and kind, and no other *)
Each == [][ev'.in.op = "notify" =>
           {ev'.out.calls[i][1] : i \in 1 .. Len(ev'.out.calls)} = {i \in 1 .. Len(ls) : ls[i] = [o |-> ev'.in.o, k |-> ev'.in.k, live |-> TRUE]}]_mvars
=============================================================================
