------------------------------ MODULE ListsMC ------------------------------
(* The algorithms which keep derived lists up to date, as a design: a filtered list (2) of a list (1) with           *)
(* incremental insertion and removal, repositioning after a content change, and an incremental or a full update     *)
(* after changes of the settings or a set of changes; a mapped list (3) of it; and a flattened list (4) of the list. *)
(* Every announcement the algorithms make is generated here and judged by the clauses of Lists (Legal), exhaustively *)
(* within the bounds.                                                                                                *)
EXTENDS Lists, TLC
CONSTANTS MItems, MAttr, MFilters, MSorts, MKids, MaxLevel, Flat
VARIABLES sorted, ok
mvars == <<vars, sorted, ok>>

Attrs == {<<c \div 10, c % 10>> : c \in MAttr}   \* 12 stands for <<1, 2>>
K0 == [i \in 1 .. 99 |-> IF i \in MItems THEN CHOOSE a \in Attrs : TRUE ELSE <<0, 0>>]
Init ==
  /\ Init0([sels |-> <<>>, kind |-> <<"list", "filtered", "mapped", IF Flat THEN "flattened" ELSE "list">>, keys |-> <<"a", "b", "c", "d">>, src |-> <<0, 1, 2, IF Flat THEN 1 ELSE 0>>,
            items |-> <<<<>>, <<>>, <<>>, <<>>>>, flt |-> <<0, 0, 0, 0>>, srt |-> <<0, 0, 0, 0>>, rev |-> <<FALSE, FALSE, FALSE, FALSE>>,
            attr |-> K0, kids |-> [i \in 1 .. 9 |-> <<>>]])
  /\ sorted = FALSE /\ ok = TRUE

Note(n, e, x, i, q) == [n |-> n, e |-> e, x |-> x, i |-> i, key |-> keys[n], items |-> q]

(* ---- the filtered list: a script is <<items, notes>> *)
Cmp(k, r, a, x, y) == LET kx == SortKey(k, a[x][1], a[x][2])
                          ky == SortKey(k, a[y][1], a[y][2]) IN IF r THEN kx > ky ELSE kx < ky
RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(q, x, lo, hi, k, r, a) ==
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN
       IF Cmp(k, r, a, q[mid + 1], x) THEN Bisect(q, x, mid + 1, hi, k, r, a) ELSE Bisect(q, x, lo, mid, k, r, a)
Place(q, x, p, f, k, r, a) ==
  IF k # 0 THEN Bisect(q, x, 0, Len(q), k, r, a)
  ELSE LET i == CHOOSE j \in 1 .. Len(p) : p[j] = x IN
       Len(SelectSeq(SubSeq(p, 1, i - 1), LAMBDA y : Match(f, a[y][1], a[y][2])))
FIns(s, x, i) == LET q == Put(s[1], i, x) IN <<q, s[2] \o <<Note(2, "begin", 0, 0, <<>>), Note(2, "ins", x, i, q), Note(2, "end", 0, 0, <<>>)>>>>
FRem(s, x) == LET i == (CHOOSE j \in 1 .. Len(s[1]) : s[1][j] = x) - 1
                  q == Delete(s[1], i) IN <<q, s[2] \o <<Note(2, "begin", 0, 0, <<>>), Note(2, "rem", x, i, q), Note(2, "end", 0, 0, <<>>)>>>>
Pos(q, x) == CHOOSE j \in 1 .. Len(q) : q[j] = x
RECURSIVE FInsAll(_, _, _, _, _, _)
FInsAll(s, xs, want, k, r, a) ==
  IF xs = <<>> THEN s
  ELSE LET at == IF k = 0 THEN Len(SelectSeq(s[1], LAMBDA y : Pos(want, y) < Pos(want, xs[1]))) ELSE Bisect(s[1], xs[1], 0, Len(s[1]), k, r, a)
       IN FInsAll(FIns(s, xs[1], at), Tail(xs), want, k, r, a)
RECURSIVE FDrop(_, _)
FDrop(s, xs) == IF xs = {} THEN s
  ELSE LET i == Min({j \in 1 .. Len(s[1]) : s[1][j] \in xs}) - 1
           q == Delete(s[1], i) IN FDrop(<<q, Append(s[2], Note(2, "rem", s[1][i + 1], i, q))>>, xs \ {s[1][i + 1]})
RECURSIVE FPop(_)
FPop(s) == IF s[1] = <<>> THEN s ELSE LET q == Front(s[1]) IN FPop(<<q, Append(s[2], Note(2, "rem", Last(s[1]), Len(q), q))>>)
RECURSIVE FPush(_, _)
FPush(s, xs) == IF xs = <<>> THEN s ELSE LET q == Append(s[1], xs[1]) IN FPush(<<q, Append(s[2], Note(2, "ins", xs[1], Len(s[1]), q))>>, Tail(xs))
RECURSIVE StableSort(_, _, _, _, _)
StableSort(p, out, k, r, a) ==
  IF p = <<>> THEN out
  ELSE LET i == Len(SelectSeq(out, LAMBDA y : ~Cmp(k, r, a, p[1], y))) IN StableSort(Tail(p), Put(out, i, p[1]), k, r, a)
Build(p, f, k, r, a) == LET w == SelectSeq(p, LAMBDA x : Match(f, a[x][1], a[x][2])) IN IF k = 0 THEN w ELSE StableSort(w, <<>>, k, r, a)
(* the whole update *)
FUpdate(q, p, f, k, r, a, srtd) ==
  LET want == Build(p, f, k, r, a)
      kept == SelectSeq(q, LAMBDA x : x \in ToSet(want))
      inorder == \A i \in 1 .. Len(kept) - 1 : IF k = 0 THEN Pos(want, kept[i]) < Pos(want, kept[i + 1]) ELSE ~Cmp(k, r, a, kept[i + 1], kept[i])
      s0 == <<q, <<Note(2, "begin", 0, 0, <<>>)>>>>
      new == SetToSeq(ToSet(want) \ ToSet(q))
      s1 == IF srtd /\ inorder
            THEN FInsAll(FDrop(s0, ToSet(q) \ ToSet(want)), new, want, k, r, a)
            ELSE FPush(FPop(s0), want)
  IN <<s1[1], Append(s1[2], Note(2, "end", 0, 0, <<>>))>>
FContent(q, p, x, f, k, r, a) ==
  LET m == x \in ToSet(p) /\ Match(f, a[x][1], a[x][2])
      there == x \in ToSet(q) IN
  CASE x \notin ToSet(p) -> <<q, <<>>>>
    [] m /\ there /\ k # 0 ->
         LET others == SelectSeq(q, LAMBDA y : y # x) IN
         IF Place(others, x, p, f, k, r, a) = Pos(q, x) - 1 THEN <<q, <<>>>>
         ELSE LET d == FRem(<<q, <<>>>>, x) IN FIns(d, x, Place(d[1], x, p, f, k, r, a))
    [] m /\ ~there -> FIns(<<q, <<>>>>, x, Place(q, x, p, f, k, r, a))
    [] ~m /\ there -> FRem(<<q, <<>>>>, x)
    [] OTHER -> <<q, <<>>>>

(* ---- the mapped list follows the announcements of the filtered one; values alternate between 100 + x and 200 + x *)
NewVal(q, x, dead) == IF 100 + x \in ToSet(q) \cup dead THEN 200 + x ELSE 100 + x
RECURSIVE MFollow(_, _, _, _)
MFollow(ns, s, lv, dead) ==
  IF ns = <<>> THEN s
  ELSE LET e == ns[1] IN
    CASE e.n # 2 -> MFollow(Tail(ns), <<s[1], Append(s[2], e)>>, lv, dead)
      [] e.e = "begin" -> MFollow(Tail(ns), <<s[1], s[2] \o (<<e>> \o IF lv = 0 THEN <<Note(3, "begin", 0, 0, <<>>)>> ELSE <<>>)>>, lv + 1, dead)
      [] e.e = "end" -> MFollow(Tail(ns), <<s[1], s[2] \o (<<e>> \o IF lv = 1 THEN <<Note(3, "end", 0, 0, <<>>)>> ELSE <<>>)>>, lv - 1, dead)
      [] e.e = "ins" -> LET v == NewVal(s[1], e.x, dead)
                            q == Put(s[1], e.i, v) IN
                        MFollow(Tail(ns), <<q, s[2] \o <<e, Note(3, "map", v, e.x, <<>>), Note(3, "ins", v, e.i, q)>>>>, lv, dead)
      [] e.e = "rem" -> LET v == s[1][e.i + 1]
                            q == Delete(s[1], e.i) IN
                        MFollow(Tail(ns), <<q, s[2] \o <<e, Note(3, "unmap", v, 0, <<>>), Note(3, "rem", v, e.i, q)>>>>, lv, dead \cup {v})

(* ---- the flattened list *)
Offset(p, x, c) == LET i == Pos(p, x) IN Len(Concat(SubSeq(p, 1, i - 1), c))
RECURSIVE LIns(_, _, _)
LIns(s, at, xs) == IF xs = <<>> THEN s ELSE LET q == Put(s[1], at, xs[1]) IN LIns(<<q, Append(s[2], Note(4, "ins", xs[1], at, q))>>, at + 1, Tail(xs))
RECURSIVE LRem(_, _, _)
LRem(s, at, m) == IF m = 0 THEN s ELSE LET q == Delete(s[1], at + m - 1) IN LRem(<<q, Append(s[2], Note(4, "rem", s[1][at + m], at + m - 1, q))>>, at, m - 1)

(* ---- what happens for an operation *)
SrcNote(in) == CASE in.op = "insert" -> <<Note(1, "ins", in.x, in.i, Put(items[1], in.i, in.x))>>
                 [] in.op = "remove" -> <<Note(1, "rem", items[1][in.i + 1], in.i, Delete(items[1], in.i))>>
                 [] OTHER -> <<>>
P1(in) == CASE in.op = "insert" -> Put(items[1], in.i, in.x) [] in.op = "remove" -> Delete(items[1], in.i) [] OTHER -> items[1]
FilterStep(in) ==
  LET p == P1(in)
      q == items[2] IN
  CASE in.op = "insert" -> IF level[2] > 0 \/ ~Match(flt[2], attr[in.x][1], attr[in.x][2]) THEN <<q, <<>>>>
                           ELSE FIns(<<q, <<>>>>, in.x, Place(q, in.x, p, flt[2], srt[2], rev[2], attr))
    [] in.op = "remove" -> IF level[2] > 0 \/ items[1][in.i + 1] \notin ToSet(q) THEN <<q, <<>>>> ELSE FRem(<<q, <<>>>>, items[1][in.i + 1])
    [] in.op = "attr" -> IF level[2] > 0 THEN <<q, <<>>>> ELSE FContent(q, p, in.x, flt[2], srt[2], rev[2], [attr EXCEPT ![in.x] = <<in.f, in.s>>])
    [] in.op = "filter" -> IF level[2] > 0 THEN <<q, <<>>>> ELSE FUpdate(q, p, in.k, srt[2], rev[2], attr, FALSE)
    [] in.op = "sort" -> IF level[2] > 0 THEN <<q, <<>>>> ELSE FUpdate(q, p, flt[2], in.k, rev[2], attr, FALSE)
    [] in.op = "reverse" -> IF level[2] > 0 THEN <<q, <<>>>> ELSE FUpdate(q, p, flt[2], srt[2], in.b, attr, FALSE)
    [] in.op = "end" -> IF level[2] > 1 THEN <<q, <<>>>> ELSE FUpdate(q, p, flt[2], srt[2], rev[2], attr, sorted)
    [] OTHER -> <<q, <<>>>>
FlatStep(in) ==
  LET s == <<items[4], <<>>>> IN
  CASE ~Flat -> s
    [] in.op = "insert" -> LIns(s, Offset(P1(in), in.x, kids), kids[in.x])
    [] in.op = "remove" -> LET x == items[1][in.i + 1] IN LRem(s, Offset(items[1], x, kids), Len(kids[x]))
    [] in.op = "kid+" -> IF in.p \in ToSet(items[1]) THEN LIns(s, Offset(items[1], in.p, kids) + in.i, <<in.x>>) ELSE s
    [] in.op = "kid-" -> IF in.p \in ToSet(items[1]) THEN LRem(s, Offset(items[1], in.p, kids) + in.i, 1) ELSE s
    [] OTHER -> s
Obs(in) ==
  LET f == FilterStep(in)
      m == MFollow(f[2], <<items[3], <<>>>>, 0, {})
      l == FlatStep(in) IN
  [items |-> <<P1(in), f[1], m[1], l[1]>>, notes |-> SrcNote(in) \o m[2] \o l[2], sel |-> <<>>]

Inputs ==
  {[op |-> "insert", n |-> 1, i |-> i, x |-> x] : i \in 0 .. Len(items[1]), x \in MItems \ ToSet(items[1])}
  \cup {[op |-> "remove", n |-> 1, i |-> i] : i \in 0 .. Len(items[1]) - 1}
  \cup {[op |-> "attr", x |-> x, f |-> a[1], s |-> a[2]] : x \in MItems, a \in Attrs}
  \cup {[op |-> "filter", n |-> 2, k |-> k] : k \in MFilters} \cup {[op |-> "sort", n |-> 2, k |-> k] : k \in MSorts}
  \cup (IF MSorts = {} THEN {} ELSE {[op |-> "reverse", n |-> 2, b |-> b] : b \in BOOLEAN})
  \cup (IF level[2] < MaxLevel THEN {[op |-> "begin", n |-> 2]} ELSE {}) \cup (IF level[2] > 0 THEN {[op |-> "end", n |-> 2]} ELSE {})
  \cup {[op |-> "kid+", p |-> p, i |-> i, x |-> x] : p \in {y \in MItems : Flat}, i \in 0 .. Cardinality(MKids), x \in MKids}
  \cup {[op |-> "kid-", p |-> p, i |-> i] : p \in {y \in MItems : Flat}, i \in 0 .. Cardinality(MKids)}
Possible(in) ==
  CASE in.op = "kid+" -> in.i <= Len(kids[in.p]) /\ \A p \in MItems : in.x \notin ToSet(kids[p])
    [] in.op = "kid-" -> in.i < Len(kids[in.p])
    [] OTHER -> TRUE
Next == \E in \in Inputs :
  /\ Possible(in)
  /\ LET o == Obs(in) IN
     /\ DoState(in, o)
     /\ ok' = Legal(o)
     /\ sorted' = IF in.op \in {"filter", "sort", "reverse"} THEN level[2] = 0 ELSE IF in.op = "end" /\ level[2] = 1 THEN TRUE ELSE sorted
Spec == Init /\ [][Next]_mvars
Ok == ok
=============================================================================
