------------------------------ MODULE RegistryMC ------------------------------
EXTENDS Registry, TLC
CONSTANTS NC, NT, MaxDepth, MaxCalls
VARIABLES calls, heard     \* heard: what somebody who listens to all notifications believes
all == <<vars, calls, heard>>
Init == Init0([prio |-> [c \in 1 .. NC |-> IF c = 1 THEN -1 ELSE 200 * c - 240]]) /\ calls = 0 /\ heard = {}
Sets == SUBSET (1 .. NT) \ {{}}
Next ==
  \/ calls < MaxCalls /\ Len(stack) < MaxDepth /\ calls' = calls + 1 /\ UNCHANGED heard /\
       \E c \in 1 .. NC, T \in Sets, op \in {"register", "unregister", "unregister all"} : Call(op, c, T)
  \/ \E c \in 1 .. NC, T \in Sets, k \in {1, 2} : Note(k, c, T) /\ heard' = (IF k = 1 THEN heard \union Pairs(c, T) ELSE heard \ Pairs(c, T)) /\ UNCHANGED calls
  \/ (\E r \in {Ok, Fails} : Return(r)) /\ UNCHANGED <<calls, heard>>
Spec == Init /\ [][Next]_all
(* whoever listens knows what is registered, if it is told about one change before the next is made *)
Told == (stack = <<>> /\ MaxDepth = 1) => heard = reg
BestOk == \A ty \in 1 .. NT : (Best(ty) = {}) = (Components(ty) = {})
Undo == \A s \in 1 .. Len(stack) : \A n \in stack[s].due : n[3] # {}
=============================================================================
