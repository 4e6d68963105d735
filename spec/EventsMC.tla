------------------------------ MODULE EventsMC ------------------------------
(* Exhaustive: MaxL listeners, MaxO owners, MaxD nested firings, MaxF firings in all. The history variables count    *)
(* the calls of each firing, to state the guarantees without the mechanism.                                          *)
EXTENDS Events, TLC
CONSTANTS MaxL, MaxO, MaxD, MaxF, Kinds, Rets
VARIABLES fires, ghost    \* ghost: per frame [due: listeners open and not released since it began, called: seq, born: used at its begin]
gvars == <<vars, fires, ghost>>
Init == Init0 /\ fires = 0 /\ ghost = <<>>

Lose(S) == ghost' = [k \in 1 .. Len(ghost) |-> [ghost[k] EXCEPT !.due = @ \ S]]
Op ==
  \/ used < MaxL /\ (\E o \in {0} \cup owners : Listen(used + 1, o, TRUE)) /\ UNCHANGED <<fires, ghost>>
  \/ (\E o \in 1 .. MaxO : (\A p \in 1 .. o - 1 : p \in owners \/ \E i \in 1 .. used : owner[i] = p) /\ o \notin owners /\ (\A i \in 1 .. used : owner[i] # o)
        /\ NewOwner(o)) /\ UNCHANGED <<fires, ghost>>
  \/ (\E id \in held \cap open : Close(id) /\ Lose({id})) /\ UNCHANGED fires
  \/ (\E id \in held : Release(id) /\ Lose({id})) /\ UNCHANGED fires
  \/ (\E o \in owners : DropOwner(o) /\ Lose({i \in 1 .. used : owner[i] = o})) /\ UNCHANGED fires
  \/ /\ fires < MaxF /\ Len(stack) < MaxD
     /\ \E k \in Kinds : FireBegin(k, fires + 1)
     /\ fires' = fires + 1
     /\ ghost' = Append(ghost, [due |-> open \ zombie, called |-> <<>>, born |-> used, closed |-> ToSet(att) \ open])
Sys ==
  \/ stack # <<>> /\ \E id \in open : Call(id, Top.arg) /\ ghost' = [ghost EXCEPT ![Len(ghost)].called = Append(@, id)] /\ UNCHANGED fires
  \/ \E v \in Rets : Ret(v) /\ UNCHANGED <<fires, ghost>>
  \/ \E r \in {"True", "False"} : End(r) /\ ghost' = SubSeq(ghost, 1, Len(ghost) - 1) /\ UNCHANGED fires
Next == Op \/ Sys
Spec == Init /\ [][Next]_gvars
G == ghost[Len(ghost)]
(* the guarantees, as stated *)
EndComplete == [][(Len(stack') < Len(stack) /\ ~Top.raised /\ ~EarlyExit(Top)) => G.due \subseteq ToSet(G.called)]_gvars
CallOnce == \A k \in 1 .. Len(ghost) : LET c == ghost[k].called IN
   /\ \A i, j \in 1 .. Len(c) : i < j => c[i] < c[j]
   /\ \A i \in 1 .. Len(c) : c[i] <= ghost[k].born /\ c[i] \notin ghost[k].closed
NoCallWhenClosed == [][\A id \in 1 .. used : (Len(stack') = Len(stack) /\ stack # <<>> /\ Top.cur = 0 /\ stack'[Len(stack)].cur = id) => id \in open]_gvars
=============================================================================
