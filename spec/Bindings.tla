------------------------------ MODULE Bindings ------------------------------
(* Bindings of targets to the properties p and q, and to the lists, of one source object. Values are numbers, -1 is  *)
(* None, -2 an attribute which does not exist. A property has a value [none, v]: v is <<number>> for a plain         *)
(* property, <<attribute a, attribute b>> for an object, or the elements of a tuple.                                 *)
(* The converter adds 100 and takes None for 4, the validator brings a number into 0..5 and takes None for 3.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES bs,       \* bindings: [kind, prop, idx, conv, valid, fb, fn]
          src,      \* property -> value
          lists,    \* key -> items
          live,     \* bindings which are not closed
          mute      \* bindings which have no target at the moment
vars == <<bs, src, lists, live, mute>>

Init0(cfg) == bs = cfg.bs /\ src = cfg.src /\ lists = cfg.lists /\ live = 1 .. Len(cfg.bs) /\ mute = {}

Conv(b, x) == IF ~b.conv THEN x ELSE IF x = -1 THEN 104 ELSE x + 100
Back(b, t) == IF ~b.conv THEN t ELSE IF t = -1 THEN 4 ELSE t - 100
Valid(b, x) == IF ~b.valid THEN x ELSE IF x = -1 THEN 3 ELSE IF x < 0 THEN 0 ELSE IF x > 5 THEN 5 ELSE x
Element(b, val) ==
  IF val.none THEN -1
  ELSE CASE b.kind = "prop" -> val.v[1]
         [] b.kind = "attr" -> IF val.v[1] = -2 THEN -1 ELSE val.v[1]
         [] b.kind = "tuple" -> IF b.idx < Len(val.v) THEN val.v[b.idx + 1] ELSE -1
Target(b, val) == LET e == Element(b, val) IN IF e = -1 THEN b.fb ELSE Conv(b, e)

Padded(q, n) == [i \in 1 .. IF Len(q) > n THEN Len(q) ELSE n |-> IF i <= Len(q) THEN q[i] ELSE -1]
Stored(b, val, t) ==
  LET x == Valid(b, Back(b, t)) IN
  CASE b.kind = "prop" -> [none |-> x = -1, v |-> IF x = -1 THEN <<>> ELSE <<x>>]
    [] b.kind = "attr" -> [none |-> FALSE, v |-> <<x, val.v[2]>>]
    [] b.kind = "tuple" -> [none |-> FALSE, v |-> [Padded(IF val.none THEN <<>> ELSE val.v, b.idx + 1) EXCEPT ![b.idx + 1] = x]]

NoCalls == [k \in 1 .. Len(bs) |-> <<>>]
(* every open binding of the property has its target set once *)
Sets(p, val) == [k \in 1 .. Len(bs) |-> IF k \in live \ mute /\ bs[k].kind # "list" /\ bs[k].prop = p THEN <<<<"set", Target(bs[k], val), 0>>>> ELSE <<>>]
Passed(key, call) == [k \in 1 .. Len(bs) |-> IF k \in live \ mute /\ bs[k].kind = "list" /\ bs[k].prop = key THEN <<call>> ELSE <<>>]
Got(s, l) == [k \in 1 .. Len(bs) |-> IF bs[k].kind = "list" THEN 0 ELSE Target(bs[k], s[bs[k].prop])]

(* what must be seen: the calls made to the targets, the source, and get_target_value of the open bindings *)
Seen(obs, calls) ==
  /\ obs.calls = calls /\ obs.odd = 0
  /\ obs.src = src' /\ obs.lists = lists'
  /\ \A k \in live' : bs[k].kind # "list" => obs.got[k] = Target(bs'[k], src'[bs[k].prop])
  /\ \A k \in live' : bs[k].kind = "list" => obs.items[k] = lists'[bs[k].prop]

(* one target is set directly *)
Only(k, v) == [NoCalls EXCEPT ![k] = IF k \in live \ mute THEN <<<<"set", v, 0>>>> ELSE <<>>]

Put(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Delete(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))

Do(in, obs) ==
  /\ bs' = (IF in.op = "fallback" THEN [bs EXCEPT ![in.k].fb = in.x] ELSE bs)
  /\ (in.op # "mute" => mute' = mute)
  /\ CASE in.op = "set" -> /\ src' = [src EXCEPT ![in.p] = in.val] /\ UNCHANGED <<lists, live>>
                           /\ Seen(obs, Sets(in.p, in.val))
       [] in.op = "update" -> LET b == bs[in.k] IN
            IF in.k \in live
            THEN LET val == Stored(b, src[b.prop], in.t) IN
                 /\ src' = [src EXCEPT ![b.prop] = val] /\ UNCHANGED <<lists, live>>
                 /\ Seen(obs, Sets(b.prop, val))
            ELSE UNCHANGED <<src, lists, live>> /\ Seen(obs, NoCalls)
       [] in.op = "fallback" -> UNCHANGED <<src, lists, live>> /\ Seen(obs, NoCalls)
       [] in.op = "other" -> UNCHANGED <<src, lists, live>> /\ Seen(obs, NoCalls)
       [] in.op = "mute" -> /\ mute' = (IF in.on THEN mute \cup {in.k} ELSE mute \ {in.k}) /\ UNCHANGED <<src, lists, live>> /\ Seen(obs, NoCalls)
       [] in.op = "push" -> UNCHANGED <<src, lists, live>> /\ Seen(obs, Only(in.k, Conv(bs[in.k], in.x)))
       [] in.op = "direct" -> UNCHANGED <<src, lists, live>> /\ Seen(obs, Only(in.k, in.x))
       [] in.op = "close" -> live' = live \ {in.k} /\ UNCHANGED <<src, lists>> /\ Seen(obs, NoCalls)
       [] in.op = "ins" -> /\ lists' = [lists EXCEPT ![in.key] = Put(@, in.i, in.x)] /\ UNCHANGED <<src, live>>
                           /\ Seen(obs, Passed(in.key, <<"ins", in.x, in.i>>))
       [] in.op = "rem" -> /\ lists' = [lists EXCEPT ![in.key] = Delete(@, in.i)] /\ UNCHANGED <<src, live>>
                           /\ Seen(obs, Passed(in.key, <<"rem", 0, in.i>>))
=============================================================================
