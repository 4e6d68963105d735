------------------------------ MODULE ModelsMC ------------------------------
EXTENDS Models, TLC
CONSTANTS MaxSets, MaxDepth
VARIABLES sets, last, told      \* told: value changes which were announced in the end
Values == {-1, 0, 1, 10, 20}
Init == /\ \E c \in {"default", "identity", "mod2", "approx", "always", "never"}, s \in BOOLEAN, f \in {-1, 0}, m \in {-1, 10} :
             Init0([cmp |-> c, stream |-> s, first |-> f, strm |-> m])
        /\ sets = 0 /\ last = -2 /\ told = 0
Next ==
  \/ sets < MaxSets /\ Len(stack) < MaxDepth /\ (\E x \in Values : Begin(x) /\ last' = x) /\ sets' = sets + 1
     /\ told' = IF value' # value \/ (cmp = "never" /\ value # -1) THEN told + 1 ELSE told
  \/ (\E s \in Values : PropertyChanged("value", s)) /\ told' = told - 1 /\ UNCHANGED <<sets, last>>
  \/ (\E s \in Values : OnValueChanged(s, value)) /\ UNCHANGED <<sets, last, told>>
  \/ Return /\ UNCHANGED <<sets, last, told>>
  \/ End(value) /\ UNCHANGED <<sets, last, told>>
  \/ ~hooked /\ Hook(TRUE) /\ UNCHANGED <<sets, last, told>>
Spec == Init /\ [][Next]_<<vars, sets, last, told>>
Settled == stack = <<>> /\ cmp # "never" => told = 0
LastWins == last # -2 /\ cmp # "never" => Same(cmp, last, value)
=============================================================================
