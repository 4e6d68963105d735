----------------------------- MODULE Selection -----------------------------
(* IndexedSelection: selected indexes and anchor of a selection of a given style.                                  *)
(* Each public operation is one action Do(in, obs): `in` is the call, `obs` what the caller can see afterwards.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

VARIABLES style, sel, anchor
vars == <<style, sel, anchor>>

NoAnchor == -1
Styles == {"none", "single", "single_or_none", "multiple"}

Sorted(S) == SetToSortSeq(S, <)
Init0(s) == style = s /\ sel = {} /\ anchor = NoAnchor

(* ---- what the selection is after an operation: a pair <<indexes, anchor>>; AnyAnchor where it is not specified *)
AnyAnchor == -2
Cleared == IF style = "single" THEN <<{0}, 0>> ELSE <<{}, NoAnchor>>
AfterSet(i) == IF style = "none" THEN Cleared ELSE <<{i}, i>>
AfterAdd(s, a, i) == IF style = "multiple" THEN <<s \cup {i}, IF s = {} THEN i ELSE a>> ELSE AfterSet(i)
AfterRemove(i) ==
  CASE style = "single" -> <<sel, anchor>>
    [] style = "none" -> Cleared
    [] OTHER -> <<sel \ {i}, IF anchor \in sel \ {i} THEN anchor ELSE AnyAnchor>>
RECURSIVE AfterRange(_, _, _, _)
AfterRange(s, a, i, b) == IF i >= b THEN <<s, a>> ELSE LET r == AfterAdd(s, a, i) IN AfterRange(r[1], r[2], i + 1, b)
Shift(i, k) == IF i >= k THEN i + 1 ELSE i
Unshift(i, k) == IF i > k THEN i - 1 ELSE i

(* is the selection as seen consistent with indexes S, anchor A (or any anchor)? *)
Seen(obs, S, A) ==
  /\ obs.sel = Sorted(S)
  /\ A # AnyAnchor => obs.anchor = A
  /\ obs.cur = IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE -1
  /\ obs.has = (S # {})
  /\ obs.same        \* equal to selections with the same indexes and anchor, and to no other
  /\ obs.contains = Sorted(S)
  /\ obs.ordered = IF obs.anchor \in S THEN <<obs.anchor>> \o Sorted(S \ {obs.anchor}) ELSE Sorted(S)
FiredOnce(obs, S) == IF S # sel THEN obs.fired = 1 /\ obs.seen = Sorted(S) ELSE obs.fired = 0

Update(obs, S) == sel' = S /\ anchor' = obs.anchor /\ UNCHANGED style

Change(obs, r) == Seen(obs, r[1], r[2]) /\ FiredOnce(obs, r[1]) /\ Update(obs, r[1])

Do(in, obs) ==
  CASE in.op = "set" -> Change(obs, AfterSet(in.i))
    [] in.op = "add" -> Change(obs, AfterAdd(sel, anchor, in.i))
    [] in.op = "remove" -> (in.i \in sel \/ style = "none" \/ style = "single") /\ Change(obs, AfterRemove(in.i))
    [] in.op = "toggle" -> Change(obs, IF in.i \in sel THEN AfterRemove(in.i) ELSE AfterAdd(sel, anchor, in.i))
    [] in.op = "clear" -> Change(obs, Cleared)
    [] in.op = "set_multiple" ->
         LET S == ToSet(in.s) IN
         IF style = "multiple"
         THEN Change(obs, <<S, IF S = {} THEN NoAnchor ELSE AnyAnchor>>) /\ (S # {} => obs.anchor \in S)
         ELSE Change(obs, IF style # "none" /\ Cardinality(S) = 1 THEN AfterSet(CHOOSE x \in S : TRUE) ELSE Cleared)
    [] in.op = "extend" ->
         IF style = "multiple"
         THEN IF anchor = NoAnchor THEN Change(obs, <<sel \cup {in.i}, in.i>>)
              ELSE IF anchor \in sel THEN Change(obs, <<sel \cup (Min({anchor, in.i}) .. Max({anchor, in.i})), anchor>>)
              ELSE \* the anchor is not specified any more: neither is what is added
                   LET S == ToSet(obs.sel) IN sel \subseteq S /\ Change(obs, <<S, AnyAnchor>>)
         ELSE Change(obs, AfterSet(in.i))
    [] in.op = "add_range" ->
         LET r == AfterRange(sel, anchor, in.a, in.b) IN
         Seen(obs, r[1], r[2]) /\ (r[1] # sel => obs.fired > 0 /\ obs.seen = Sorted(r[1])) /\ (in.a >= in.b => obs.fired = 0)
         /\ (style = "multiple" /\ r[1] = sel => obs.fired = 0) /\ Update(obs, r[1])
    [] in.op = "insert_index" ->
         LET S == {Shift(i, in.i) : i \in sel} IN
         Seen(obs, S, IF anchor = NoAnchor THEN NoAnchor ELSE Shift(anchor, in.i)) /\ Update(obs, S)
    [] in.op = "remove_index" ->
         LET S == {Unshift(i, in.i) : i \in sel \ {in.i}} IN
         Seen(obs, S, IF anchor = NoAnchor THEN NoAnchor ELSE IF anchor = in.i THEN AnyAnchor ELSE Unshift(anchor, in.i))
         /\ Update(obs, S)
    [] OTHER -> FALSE

(* ---------------------------------------------- properties of the design -------------------------------------- *)
StyleOk ==
  /\ style = "none" => sel = {}
  /\ style \in {"single", "single_or_none"} => Cardinality(sel) <= 1
  /\ anchor >= NoAnchor
(* a single selection never becomes empty by a selecting operation *)
KeepsSingle(in) == (style = "single" /\ sel # {} /\ in.op \notin {"insert_index", "remove_index"}) => sel' # {}
=============================================================================
