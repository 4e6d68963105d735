------------------------------- MODULE ListOps -------------------------------
(* Filters, sort keys and edits of lists of items (used by Lists and ThreadedLists).                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Base(x) == x % 100

(* -------------------------------------------------- filters and sort keys --------------------------------------- *)
Match(k, f, s) ==
  CASE k = 0 -> TRUE
    [] k = 1 -> f = 1
    [] k = 2 -> f # 1
    [] k = 3 -> s > 1
    [] k = 4 -> FALSE
    [] k = 5 -> f = s
SortKey(k, f, s) ==
  CASE k = 1 -> s
    [] k = 2 -> f
    [] k = 3 -> 0 - s
    [] k = 4 -> 100 * f + s
    [] k = 5 -> 7

InOrder(k, r, a, x, y) ==   \* may x come before y, with attributes a?
  LET kx == SortKey(k, a[Base(x)][1], a[Base(x)][2])
      ky == SortKey(k, a[Base(y)][1], a[Base(y)][2]) IN IF r THEN kx >= ky ELSE kx <= ky

Distinct(q) == Len(q) = Cardinality(ToSet(q))
(* q is what a filtered list of p may be *)
IsFiltered(q, p, f, k, r, a) ==
  LET want == SelectSeq(p, LAMBDA x : Match(f, a[Base(x)][1], a[Base(x)][2])) IN
  IF k = 0 THEN q = want
  ELSE /\ Len(q) = Len(want) /\ ToSet(q) = ToSet(want)
       /\ \A i \in 1 .. Len(q) - 1 : InOrder(k, r, a, q[i], q[i + 1])

(* -------------------------------------------------------- edits ------------------------------------------------- *)
Put(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Delete(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
=============================================================================
