------------------------------- MODULE Lists -------------------------------
(* List models and the lists derived from them. Nodes 1..N are lists: plain ones ("list"), and filtered, mapped and  *)
(* flattened ones, each with another node as its source (0: none). An operation is one step Do(in, obs); obs.notes   *)
(* is everything the lists announced during it, in order, obs.items their items afterwards.                          *)
(*                                                                                                                    *)
(* Items are numbers: 1..99 are items proper (1..9 may have children), a value made by a map function for item x is  *)
(* some k*100 + x (k counts the calls, so that every value is new). An item has two attributes, <<f, s>>.            *)
(*                                                                                                                    *)
(* The clauses (edit, filtered, mapped, flattened, bracket, selection) are the properties; Clauses says which of     *)
(* them are required.                                                                                                 *)
EXTENDS ListOps
CONSTANT Clauses

VARIABLES kind,     \* of each node
          keys,     \* its key
          src,      \* its source
          items,    \* its items
          flt, srt, rev, level,   \* filter, sort key, reversal and open sets of changes
          depth,    \* begin changes events without an end
          attr,     \* of each item
          kids,     \* children of items 1..9
          sels      \* selections: [n: node, S: items selected, a: anchor item or 0 (unspecified), live]
vars == <<kind, keys, src, items, flt, srt, rev, level, depth, attr, kids, sels>>

Nodes == 1 .. Len(kind)
F(x) == attr[Base(x)][1]
S(x) == attr[Base(x)][2]

Init0(cfg) ==
  /\ kind = cfg.kind /\ keys = cfg.keys /\ src = cfg.src /\ items = cfg.items
  /\ flt = cfg.flt /\ srt = cfg.srt /\ rev = cfg.rev
  /\ level = [n \in 1 .. Len(cfg.kind) |-> 0]
  /\ depth = [n \in 1 .. Len(cfg.kind) |-> 0]
  /\ attr = cfg.attr /\ kids = cfg.kids
  /\ sels = [s \in 1 .. Len(cfg.sels) |-> [n |-> cfg.sels[s], S |-> {}, live |-> TRUE, raw |-> <<>>, a |-> 0]]

RECURSIVE Concat(_, _)
Concat(p, c) == IF p = <<>> THEN <<>> ELSE c[Base(p[1])] \o Concat(Tail(p), c)

Source(n, sr, it) == IF sr[n] = 0 THEN <<>> ELSE it[sr[n]]

(* -------------------------------------------------------- edit scripts ------------------------------------------ *)
Of(notes, n) == SelectSeq(notes, LAMBDA e : e.n = n)
Bad == <<-1>>
(* the list after the notifications q of node n, or Bad *)
RECURSIVE Play(_, _, _)
Play(q, cur, key) ==
  IF q = <<>> THEN cur
  ELSE LET e == q[1] IN
    CASE e.e = "ins" -> IF e.key = key /\ e.i >= 0 /\ e.i <= Len(cur) /\ e.items = Put(cur, e.i, e.x) THEN Play(Tail(q), e.items, key) ELSE Bad
      [] e.e = "rem" -> IF e.key = key /\ e.i >= 0 /\ e.i < Len(cur) /\ cur[e.i + 1] = e.x /\ e.items = Delete(cur, e.i) THEN Play(Tail(q), e.items, key) ELSE Bad
      [] OTHER -> Play(Tail(q), cur, key)

(* ------------------------------------------------------------ clauses ------------------------------------------- *)
Edit(obs) == \A n \in Nodes : Play(Of(obs.notes, n), items[n], keys[n]) = obs.items[n]

Filtered(obs) == \A n \in Nodes : kind[n] = "filtered" =>
  IF level'[n] = 0 THEN IsFiltered(obs.items[n], Source(n, src', obs.items), flt'[n], srt'[n], rev'[n], attr')
  ELSE obs.items[n] = items[n]

(* the mapped values of a node: made, then inserted; given back, then removed *)
RECURSIVE Values(_, _, _, _)
Values(q, here, made, dead) ==
  IF q = <<>> THEN made = {} /\ dead = {}
  ELSE LET e == q[1] IN
    CASE e.e = "map" -> e.x \notin here /\ e.x \notin made /\ Base(e.x) = Base(e.i) /\ Values(Tail(q), here, made \cup {e.x}, dead)
      [] e.e = "ins" -> e.x \in made /\ Values(Tail(q), here \cup {e.x}, made \ {e.x}, dead)
      [] e.e = "unmap" -> e.x \in here /\ e.x \notin dead /\ Values(Tail(q), here, made, dead \cup {e.x})
      [] e.e = "rem" -> e.x \in dead /\ Values(Tail(q), here \ {e.x}, made, dead \ {e.x})
      [] OTHER -> Values(Tail(q), here, made, dead)
Xs(q, e) == LET r == SelectSeq(q, LAMBDA v : v.e = e) IN [i \in 1 .. Len(r) |-> r[i].x]
MapArgs(q) == LET r == SelectSeq(q, LAMBDA v : v.e = "map") IN [i \in 1 .. Len(r) |-> r[i].i]
Mapped(obs) == \A n \in Nodes : kind[n] \in {"mapped", "identity"} =>
  LET p == Source(n, src', obs.items)
      q == obs.items[n]
      own == Of(obs.notes, n) IN
  /\ Len(p) = Len(q)
  /\ \A i \in 1 .. Len(p) : Base(q[i]) = Base(p[i])
  /\ kind[n] = "identity" => p = q
  /\ kind[n] = "mapped" =>
       /\ Values(own, ToSet(items[n]), {}, {})
       /\ src'[n] # src[n] => /\ MapArgs(own) = p
                              /\ \A x \in ToSet(items[n]) : x \in ToSet(Xs(own, "unmap"))
       /\ src'[n] = src[n] => IF src[n] = 0 THEN MapArgs(own) = <<>> ELSE MapArgs(own) = Xs(Of(obs.notes, src[n]), "ins")
       /\ \A x \in ToSet(items[n]) : x \in ToSet(q) \/ x \in ToSet(Xs(own, "unmap"))

Flattened(obs) == \A n \in Nodes : kind[n] = "flattened" => obs.items[n] = Concat(Source(n, src', obs.items), kids')

(* depth after the notifications q, or -1; and whether all insertions and removals are enclosed *)
RECURSIVE Depth(_, _, _)
Depth(q, d, key) ==
  IF q = <<>> THEN d
  ELSE LET e == q[1] IN
    CASE e.e = "begin" -> IF e.key = key THEN Depth(Tail(q), d + 1, key) ELSE -1
      [] e.e = "end" -> IF d > 0 /\ e.key = key THEN Depth(Tail(q), d - 1, key) ELSE -1
      [] OTHER -> Depth(Tail(q), d, key)
RECURSIVE Enclosed(_, _)
Enclosed(q, d) ==
  IF q = <<>> THEN TRUE
  ELSE CASE q[1].e = "begin" -> Enclosed(Tail(q), d + 1)
         [] q[1].e = "end" -> Enclosed(Tail(q), d - 1)
         [] q[1].e \in {"ins", "rem"} -> d > 0 /\ Enclosed(Tail(q), d)
         [] OTHER -> Enclosed(Tail(q), d)
Brackets(obs) ==
  /\ \A n \in Nodes : LET q == Of(obs.notes, n) IN
       /\ Depth(q, depth[n], keys[n]) >= 0
       /\ kind[n] = "filtered" => Enclosed(q, depth[n])
       /\ kind[n] \in {"mapped", "identity"} =>
            /\ level[n] > 0 => Enclosed(q, depth[n])
            /\ src'[n] = src[n] /\ src[n] # 0 /\ Enclosed(Of(obs.notes, src[n]), depth[src[n]]) => Enclosed(q, depth[n])
  /\ (\A n \in Nodes : level'[n] = 0) => \A n \in Nodes : Depth(Of(obs.notes, n), depth[n], keys[n]) = 0

(* items of node n which were removed and inserted again *)
Moved(obs, n) == ToSet(Xs(Of(obs.notes, n), "rem")) \cap ToSet(obs.items[n])
IndexOf(q, x) == CHOOSE i \in 1 .. Len(q) : q[i] = x
Sel(obs, s, q) == {q[obs.sel[s].S[i] + 1] : i \in 1 .. Len(obs.sel[s].S)}
SelOk(obs, s) ==
  LET o == obs.sel[s]
      n == sels[s].n
      q == obs.items[n]
      m == Moved(obs, n) IN
  IF ~sels[s].live THEN o.S = sels[s].raw
  ELSE /\ \A i \in 1 .. Len(o.S) : o.S[i] >= 0 /\ o.S[i] < Len(q)
       /\ Sel(obs, s, q) \subseteq sels[s].S        \* nothing is selected which was not
       /\ \A x \in ToSet(q) \ m : x \in Sel(obs, s, q) <=> (x \in sels[s].S /\ x \in ToSet(items[n]))
       /\ sels[s].a \in (ToSet(q) \ m) \cap sels[s].S => o.a + 1 = IndexOf(q, sels[s].a)
SelNext(obs, s) ==
  LET o == obs.sel[s]
      n == sels[s].n
      q == obs.items[n] IN
  IF ~sels[s].live THEN sels[s]
  ELSE [n |-> n, S |-> Sel(obs, s, q), live |-> TRUE, raw |-> o.S,
        a |-> IF o.a >= 0 /\ o.a < Len(q) /\ q[o.a + 1] \in Sel(obs, s, q) THEN q[o.a + 1] ELSE 0]
Selections(in, obs) ==
  IF "selection" \notin Clauses THEN sels' = sels
  ELSE CASE in.op = "make" -> /\ \A s \in 1 .. Len(sels) : SelOk(obs, s)
                              /\ obs.sel[Len(obs.sel)].S = <<>> /\ Len(obs.sel) = Len(sels) + 1
                              /\ sels' = Append(sels, [n |-> in.n, S |-> {}, live |-> TRUE, raw |-> <<>>, a |-> 0])
         [] in.op = "release" -> /\ \A s \in 1 .. Len(sels) : SelOk(obs, s)
                                 /\ sels' = [sels EXCEPT ![in.s].live = FALSE, ![in.s].raw = obs.sel[in.s].S]
         [] in.op = "select" -> /\ \A s \in 1 .. Len(sels) : s # in.s => SelOk(obs, s)
                                /\ sels' = [s \in 1 .. Len(sels) |-> SelNext(obs, s)]
         [] OTHER -> /\ \A s \in 1 .. Len(sels) : SelOk(obs, s)
                     /\ sels' = [s \in 1 .. Len(sels) |-> SelNext(obs, s)]

Legal(obs) ==
  /\ Len(obs.items) = Len(kind)
  /\ ("edit" \in Clauses => Edit(obs))
  /\ ("filtered" \in Clauses => Filtered(obs))
  /\ ("mapped" \in Clauses => Mapped(obs))
  /\ ("flattened" \in Clauses => Flattened(obs))
  /\ ("bracket" \in Clauses => Brackets(obs))
  /\ \A n \in Nodes : kind[n] # "list" \/ obs.items[n] = items'[n]

(* what the operation asks for: the plain list, the settings *)
Same(S1) == \* which groups of variables stay as they are
  /\ ("attr" \in S1 => attr' = attr) /\ ("kids" \in S1 => kids' = kids) /\ ("src" \in S1 => src' = src)
  /\ ("set" \in S1 => flt' = flt /\ srt' = srt /\ rev' = rev) /\ ("level" \in S1 => level' = level)
All == {"attr", "kids", "src", "set", "level"}
List(in) == \* the plain list an operation edits, afterwards
  CASE in.op = "insert" -> Put(items[in.n], in.i, in.x)
    [] in.op = "append" -> Append(items[in.n], in.x)
    [] in.op = "remove" -> Delete(items[in.n], in.i)
    [] in.op = "clear" -> <<>>
RECURSIVE Touched(_, _)
Touched(a, c) == IF c = <<>> THEN a ELSE Touched([a EXCEPT ![c[1][1]] = <<c[1][2], c[1][3]>>], Tail(c))
DoState(in, obs) ==
  /\ UNCHANGED <<kind, keys>>
  /\ CASE in.op \in {"insert", "append", "remove", "clear"} -> Same(All)
       [] in.op = "attr" -> attr' = [attr EXCEPT ![in.x] = <<in.f, in.s>>] /\ Same(All \ {"attr"})
       [] in.op = "touch" -> attr' = Touched(attr, in.c) /\ Same(All \ {"attr"})
       [] in.op = "kid+" -> kids' = [kids EXCEPT ![in.p] = Put(@, in.i, in.x)] /\ Same(All \ {"kids"})
       [] in.op = "kid-" -> kids' = [kids EXCEPT ![in.p] = Delete(@, in.i)] /\ Same(All \ {"kids"})
       [] in.op = "filter" -> flt' = [flt EXCEPT ![in.n] = in.k] /\ UNCHANGED <<srt, rev>> /\ Same(All \ {"set"})
       [] in.op = "sort" -> srt' = [srt EXCEPT ![in.n] = in.k] /\ UNCHANGED <<flt, rev>> /\ Same(All \ {"set"})
       [] in.op = "reverse" -> rev' = [rev EXCEPT ![in.n] = in.b] /\ UNCHANGED <<flt, srt>> /\ Same(All \ {"set"})
       [] in.op = "begin" -> level' = [level EXCEPT ![in.n] = @ + 1] /\ Same(All \ {"level"})
       [] in.op = "end" -> level[in.n] > 0 /\ level' = [level EXCEPT ![in.n] = @ - 1] /\ Same(All \ {"level"})
       [] in.op = "source" -> src' = [src EXCEPT ![in.n] = in.m] /\ Same(All \ {"src"})
       [] in.op = "close" -> src' = [src EXCEPT ![in.n] = 0] /\ Same(All \ {"src"})
       [] in.op \in {"mark", "noise", "make", "release", "select", "init"} -> Same(All)
  /\ items' = [n \in Nodes |-> IF kind[n] # "list" THEN obs.items[n]
                               ELSE IF in.op \in {"insert", "append", "remove", "clear"} /\ in.n = n THEN List(in) ELSE items[n]]
  /\ depth' = [n \in Nodes |-> IF "bracket" \in Clauses THEN Depth(Of(obs.notes, n), depth[n], keys[n]) ELSE 0]
  /\ Selections(in, obs)
(* = TRUE: TLC evaluates the clauses as values (it is much slower with them as parts of an action) *)
Do(in, obs) == DoState(in, obs) /\ (Legal(obs) = TRUE)
=============================================================================
