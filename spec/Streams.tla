------------------------------- MODULE Streams -------------------------------
(* A graph of streams. Values are numbers, -1 is None. Nodes:                                                         *)
(*  [kind, ins, fn, refs (held by the user), open, cur, due (a value stream has to emit), seen (values delivered, by  *)
(*  input), sel, mcur (value of the selected stream)]                                                                *)
(*  kinds: value; repeat (the same, but equal values are passed on, too); map (ins[1]); comb (all of ins); prop (the property of the object numbered by ins[1], a stream, or  *)
(*  of the object -ins[1]); concat (ins[1] selects one of ins[2..], or its map if fn = 1); model, deb, samp (users of *)
(*  ins[1] whose values are not looked at here).                                                                      *)
(* An emission of a stream is put into the queue of every stream that listens to it and taken from there when that    *)
(* stream makes its own emission; when an operation ends everything has been taken.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Clauses
VARIABLES nodes, obj,      \* obj: value of the property of each object
          q                \* q[d][i]: emissions of ins[i] which d has not passed on
vars == <<nodes, obj, q>>
Init0(cfg) == nodes = <<>> /\ obj = cfg.obj /\ q = <<>>

Ids == 1 .. Len(nodes)
Half(x) == IF x = -1 THEN -1 ELSE x \div 2
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + 1 + 2 * Sum(Tail(s))
RECURSIVE Tuple(_)
Tuple(s) == IF s = <<>> THEN 1 ELSE Tuple(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] % 10)
Combined(fn, vals) == IF fn = 0 THEN Tuple(vals) ELSE Sum(vals)
Pick(n, item) == n.ins[2 + ((item - 1) % (Len(n.ins) - 1))]
OutValue(n, N, s) == IF n.fn = 1 THEN Half(N[s].cur) ELSE N[s].cur
(* a property stream may have been given a comparison *)
Same(n, a, b) == IF n.kind = "prop" /\ n.fn = 1 THEN Half(a) = Half(b) ELSE a = b
ObjectOf(n, N) == IF n.ins[1] < 0 THEN -n.ins[1] ELSE N[n.ins[1]].cur
Derived(n, N) ==
  CASE n.kind = "map" -> Half(N[n.ins[1]].cur)
    [] n.kind = "comb" -> Combined(n.fn, [i \in 1 .. Len(n.ins) |-> N[n.ins[i]].cur])
    [] n.kind = "prop" -> LET o == ObjectOf(n, N) IN IF o = -1 THEN -1 ELSE obj[o]
    [] n.kind = "concat" -> IF N[n.ins[1]].cur = -1 THEN -1 ELSE OutValue(n, N, Pick(n, N[n.ins[1]].cur))
    [] OTHER -> n.cur

(* a new stream has its derived value at once *)
Made(in) ==
  LET n == [kind |-> in.kind, ins |-> in.ins, fn |-> in.fn, refs |-> in.refs, open |-> TRUE, cur |-> in.v, due |-> FALSE, seen |-> <<>>, sel |-> 0, mcur |-> -1]
      d == [n EXCEPT !.cur = Derived(n, nodes), !.seen = [i \in 1 .. Len(n.ins) |-> IF n.ins[i] < 0 THEN -1 ELSE nodes[n.ins[i]].cur]]
      item == IF n.kind = "concat" THEN nodes[n.ins[1]].cur ELSE -1
  IN IF item = -1 THEN d ELSE [d EXCEPT !.sel = Pick(n, item), !.mcur = d.cur]
Empty(n) == [i \in 1 .. Len(n.ins) |-> <<>>]

Listens(d, i) == LET n == nodes[d] IN
  n.open /\ CASE n.kind \in {"map", "comb"} -> TRUE [] n.kind = "prop" -> n.ins[1] > 0 [] n.kind = "concat" -> i = 1 \/ n.ins[i] = n.sel [] OTHER -> FALSE
(* stream s emits v *)
Fed(Q, s, v) == [d \in 1 .. Len(Q) |-> [i \in 1 .. Len(Q[d]) |-> IF nodes[d].ins[i] = s /\ Listens(d, i) THEN Append(Q[d][i], v) ELSE Q[d][i]]]

(* what the delivery of the first value in queue i does to d: the node after it, and whether it emits *)
Deliver(d, i) ==
  LET n == nodes[d] v == Head(q[d][i]) IN
  CASE n.kind = "map" -> [n |-> [n EXCEPT !.cur = Half(v)], emits |-> Half(v) # n.cur]
    [] n.kind = "comb" -> LET s == [n.seen EXCEPT ![i] = v] IN [n |-> [n EXCEPT !.seen = s, !.cur = Combined(n.fn, s)], emits |-> TRUE]
    [] n.kind = "prop" -> (* 1000 + x: the object's property is x; otherwise the source is another object *)
         LET x == IF v >= 1000 THEN v - 1001 ELSE IF v = -1 THEN n.cur ELSE obj[v]
         IN IF Same(n, x, n.cur) THEN [n |-> n, emits |-> FALSE] ELSE [n |-> [n EXCEPT !.cur = x], emits |-> TRUE]
    [] n.kind = "concat" -> IF i = 1 THEN LET s == IF v = -1 THEN 0 ELSE Pick(n, v)
                                              x == IF s = 0 THEN -1 ELSE OutValue(n, nodes, s)
                                          IN [n |-> [n EXCEPT !.sel = s, !.cur = x, !.mcur = x], emits |-> TRUE]
                            ELSE LET x == IF n.fn = 1 THEN Half(v) ELSE v IN [n |-> [n EXCEPT !.cur = x, !.mcur = x], emits |-> n.fn = 0 \/ x # n.mcur]
Taken(d, i) == IF nodes[d].kind = "concat" /\ i = 1 THEN [Empty(nodes[d]) EXCEPT ![1] = Tail(q[d][1])] ELSE [q[d] EXCEPT ![i] = Tail(@)]

(* a delivery which nobody sees *)
Silent(d) == \E i \in 1 .. Len(q[d]) : q[d][i] # <<>> /\ LET r == Deliver(d, i) IN
  ~r.emits /\ nodes' = [nodes EXCEPT ![d] = r.n] /\ q' = [q EXCEPT ![d] = Taken(d, i)] /\ UNCHANGED obj
Emit(d, v, held) ==
  /\ d \in Ids /\ nodes[d].open /\ held = v
  /\ IF nodes[d].kind \in {"value", "repeat"} THEN nodes[d].cur = v /\ nodes[d].due /\ nodes' = [nodes EXCEPT ![d].due = FALSE] /\ q' = Fed(q, d, v)
     ELSE \E i \in 1 .. Len(q[d]) : q[d][i] # <<>> /\ LET r == Deliver(d, i) IN
            r.emits /\ r.n.cur = v /\ nodes' = [nodes EXCEPT ![d] = r.n] /\ q' = Fed([q EXCEPT ![d] = Taken(d, i)], d, v)
  /\ UNCHANGED obj

(* references: those of the user, and one from each open stream to its inputs (of a concat to what it selected, through *)
(* a private stream if fn = 1)                                                                                           *)
UserOf(n, s) == n.open /\ IF n.kind = "concat" THEN n.ins[1] = s \/ n.sel = s ELSE \E i \in 1 .. Len(n.ins) : n.ins[i] = s
(* a combination of a stream with itself refers to it twice *)
Refs(N, s) == N[s].refs + Cardinality({d \in 1 .. Len(N) : UserOf(N[d], s) /\ N[d].kind # "comb"})
              + Cardinality({<<d, i>> \in (1 .. Len(N)) \X (1 .. 12) : N[d].open /\ N[d].kind = "comb" /\ i <= Len(N[d].ins) /\ N[d].ins[i] = s})
RECURSIVE Closing(_)
Closing(N) == LET dead == {s \in 1 .. Len(N) : N[s].open /\ Refs(N, s) = 0 /\ N[s].kind # "model"} IN
  IF dead = {} THEN N ELSE Closing([N EXCEPT ![CHOOSE s \in dead : TRUE].open = FALSE])
Closed(N, N2) == {s \in 1 .. Len(N) : N[s].open /\ ~N2[s].open}
Private(N) == Cardinality({d \in 1 .. Len(N) : N[d].open /\ N[d].kind = "concat" /\ N[d].fn = 1 /\ N[d].sel # 0})

Op(in) ==
  CASE in.op = "make" -> nodes' = Append(nodes, Made(in)) /\ q' = Append(q, Empty(in)) /\ UNCHANGED obj
    [] in.op = "set" /\ "values" \in Clauses ->
         /\ nodes' = IF nodes[in.s].cur = in.v /\ nodes[in.s].kind = "value" THEN nodes ELSE [nodes EXCEPT ![in.s].cur = in.v, ![in.s].due = TRUE]
         /\ UNCHANGED <<obj, q>>
    [] in.op = "set" -> (* references: all that matters is what a concat selects *)
         /\ nodes' = [d \in Ids |-> IF d = in.s THEN [nodes[d] EXCEPT !.cur = in.v]
                                    ELSE IF nodes[d].open /\ nodes[d].kind = "concat" /\ nodes[d].ins[1] = in.s THEN [nodes[d] EXCEPT !.sel = IF in.v = -1 THEN 0 ELSE Pick(nodes[d], in.v)]
                                    ELSE nodes[d]]
         /\ UNCHANGED <<obj, q>>
    [] in.op = "obj" -> (* the property of an object is set and announced *)
         /\ obj' = [obj EXCEPT ![in.o] = in.v] /\ UNCHANGED nodes
         /\ q' = [d \in 1 .. Len(q) |-> IF "values" \in Clauses /\ nodes[d].open /\ nodes[d].kind = "prop" /\ ObjectOf(nodes[d], nodes) = in.o THEN <<Append(q[d][1], in.v + 1001)>> ELSE q[d]]
    [] in.op = "noise" -> UNCHANGED vars
    [] in.op = "ref" -> nodes' = [nodes EXCEPT ![in.s].refs = @ + 1] /\ UNCHANGED <<obj, q>>
    [] in.op = "unref" -> nodes' = Closing([nodes EXCEPT ![in.s].refs = @ - 1]) /\ UNCHANGED <<obj, q>>
    [] in.op = "close" -> nodes' = Closing([nodes EXCEPT ![in.s].open = FALSE]) /\ UNCHANGED <<obj, q>>
    [] OTHER -> FALSE
Values(c) == "values" \in Clauses => c
References(c) == "refs" \in Clauses => c
HasValue(n) == n.open /\ n.kind \in {"value", "repeat", "map", "comb", "prop", "concat"}
Unknown(n) == n.kind = "prop" /\ ObjectOf(n, nodes) = -1    \* the property of no object
(* the end of an operation: everything was passed on *)
End(obs) ==
  /\ Values(/\ \A d \in Ids : \A i \in 1 .. Len(q[d]) : q[d][i] = <<>>
            /\ \A s \in Ids : ~nodes[s].due
            /\ \A s \in Ids : HasValue(nodes[s]) =>
                 IF Unknown(nodes[s]) THEN obs.vals[s] \in {nodes[s].cur, -1} ELSE obs.vals[s] = nodes[s].cur /\ Same(nodes[s], nodes[s].cur, Derived(nodes[s], nodes)))
  /\ References(/\ \A s \in Ids : nodes[s].kind # "model" => obs.deleted[s] = (IF nodes[s].open THEN 0 ELSE 1)
                /\ \A s \in Ids : (nodes[s].open /\ nodes[s].kind # "model") => obs.counts[s] = Refs(nodes, s)
                /\ obs.private = Private(nodes) /\ obs.twice = 0)
  /\ nodes' = [s \in Ids |-> IF "values" \in Clauses /\ HasValue(nodes[s]) /\ Unknown(nodes[s]) THEN [nodes[s] EXCEPT !.cur = obs.vals[s]] ELSE nodes[s]]
  /\ UNCHANGED <<obj, q>>
=============================================================================
