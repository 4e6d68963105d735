----------------------------- MODULE FuncModelMC -----------------------------
EXTENDS FuncModel, TLC
CONSTANTS MaxFns, Mod
Init == Init0(100, Mod)
Next == \/ Len(fns) < MaxFns /\ \E v \in {1, 2, 11}, ok \in BOOLEAN : Receive(v, ok)
        \/ \E k \in 1 .. Len(fns) : Done(k) \/ Take(k) \/ Drop(k)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(\E k \in 1 .. Len(fns) : Done(k)) /\ WF_vars(\E k \in 1 .. Len(fns) : Take(k) \/ Drop(k))
Same(v, w) == v = w \/ (mod # 0 /\ v % mod = w % mod)
AtNewest == Good # {} => Same(val, fns[NewestFn].v)
EndsUp == handled = 1 .. Len(fns) => (AtNewest /\ last = NewestFn)
Forward == [][last' >= last]_vars
Ends == <>(Len(fns) = MaxFns) => <>[]AtNewest
=============================================================================
