----------------------------- MODULE BindingsMC -----------------------------
(* One binding of every kind and configuration, all values within the bounds; every transition is printed for replay. *)
(* The round trip through a two way binding is checked on the design.                                                 *)
EXTENDS Bindings, TLC, Json
VARIABLE ev
mvars == <<vars, ev>>
Cfgs == {[bs |-> <<[kind |-> k, prop |-> "p", idx |-> i, conv |-> c, valid |-> v, fb |-> f, fn |-> fn]>>, src |-> [p |-> p, q |-> [none |-> TRUE, v |-> <<>>]], lists |-> [items |-> <<>>, others |-> <<>>]] :
          k \in {"prop", "attr", "tuple"}, i \in 0 .. 1, c \in BOOLEAN, v \in BOOLEAN, f \in {-1, 77}, fn \in BOOLEAN, p \in {[none |-> TRUE, v |-> <<>>], [none |-> FALSE, v |-> <<1, 2>>]}}
Fits(cfg) == LET b == cfg.bs[1] IN
  /\ (b.kind # "tuple" => b.idx = 0) /\ (b.kind # "prop" => ~b.valid) /\ (b.kind # "attr" => ~b.fn)
  /\ IF b.kind = "attr" THEN ~cfg.src["p"].none ELSE cfg.src["p"].none
Init == /\ \E cfg \in Cfgs : Fits(cfg) /\ Init0(cfg)
        /\ ev = [in |-> [op |-> "init"], out |-> [calls |-> <<>>]]
N == {-1, 0, 1}
None == [none |-> TRUE, v |-> <<>>]
Values == CASE bs[1].kind = "prop" -> {None} \cup {[none |-> FALSE, v |-> <<x>>] : x \in N \ {-1}}
            [] bs[1].kind = "attr" -> {None} \cup {[none |-> FALSE, v |-> <<x, y>>] : x \in N \cup {-2}, y \in {1}}
            [] bs[1].kind = "tuple" -> {None} \cup {[none |-> FALSE, v |-> q] : q \in {<<>>} \cup {<<x>> : x \in N} \cup {<<x, y>> : x, y \in N}}
Inputs == {[op |-> "set", p |-> "p", val |-> v] : v \in Values} \cup {[op |-> "set", p |-> "q", val |-> None], [op |-> "other"], [op |-> "close", k |-> 1]}
  \cup {[op |-> "update", k |-> 1, t |-> t] : t \in {-1} \cup (IF bs[1].conv THEN {100, 101} ELSE {0, 1}) \cup (IF bs[1].valid THEN {-7, 150} ELSE {})}
  \cup {[op |-> "mute", k |-> 1, on |-> o] : o \in BOOLEAN} \cup {[op |-> o, k |-> 1, x |-> x] : o \in {"push", "direct"}, x \in {-1, 1}}
Able(in) == CASE in.op = "mute" -> live # {}
              [] in.op = "close" -> live # {}
              [] in.op = "update" -> bs[1].kind = "attr" => ~src["p"].none
              [] OTHER -> TRUE
Look(in) == LET after == CASE in.op = "set" -> [src EXCEPT ![in.p] = in.val] [] in.op = "update" /\ live # {} -> [src EXCEPT !["p"] = Stored(bs[1], src["p"], in.t)] [] OTHER -> src
                calls == CASE in.op = "set" -> Sets(in.p, in.val) [] in.op = "update" -> Sets("p", after["p"])
                           [] in.op = "push" -> Only(1, Conv(bs[1], in.x)) [] in.op = "direct" -> Only(1, in.x) [] OTHER -> NoCalls
  IN [odd |-> 0, calls |-> calls, src |-> after, lists |-> lists, got |-> <<IF live = {} \/ in.op = "close" THEN 0 ELSE Target(bs[1], after["p"])>>, items |-> <<<<>>>>]
Next == \E in \in Inputs : Able(in) /\ LET o == Look(in) IN Do(in, o) /\ ev' = [in |-> in, out |-> o]
St == <<bs, src, live = {1}, mute = {}>>
Emit == PrintT("EDGE " \o ToJson(<<St, ev', <<bs, src', live' = {1}, mute' = {}>>>>))
Spec == Init /\ [][Next]_mvars
(* what the target is given after an update from the target is what it set, if the value is valid *)
RoundTrip == [][(ev'.in.op = "update" /\ live = {1} /\ mute = {} /\ ev'.in.t # -1 /\ ~bs[1].valid) => ev'.out.calls[1] = <<<<"set", ev'.in.t, 0>>>>]_mvars
Quiet == [][(live = {} \/ mute = {1}) => ev'.out.calls[1] = <<>>]_mvars
=============================================================================
