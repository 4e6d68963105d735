------------------------------ MODULE Filters ------------------------------
(* What the filters of list models mean. A value is [t, v]: an integer ("i", <<n>>), a text ("s", character codes),  *)
(* a date ("d", <<year, month, day>>) or None ("n", <<>>). An item is a function from attribute names to values.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* characters: ASCII and Latin-1 *)
Lower(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32 ELSE c
LowerAll(s) == [i \in 1 .. Len(s) |-> Lower(s[i])]
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pad2(n) == IF n < 10 THEN <<48>> \o Digits(n) ELSE Digits(n)
Text(x) == CASE x.t = "s" -> x.v
             [] x.t = "i" -> Digits(x.v[1])
             [] x.t = "n" -> <<78, 111, 110, 101>>
             [] x.t = "d" -> Digits(x.v[1]) \o <<45>> \o Pad2(x.v[2]) \o <<45>> \o Pad2(x.v[3])
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Occurs(p, s) == \E k \in 0 .. Len(s) - Len(p) : SubSeq(s, k + 1, k + Len(p)) = p

Cmp(c, a, b) ==
  CASE c = "eq" -> a = b
    [] c = "lt" -> a.v[1] < b.v[1]
    [] c = "ge" -> a.v[1] >= b.v[1]
    [] c = "mod" -> a.v[1] % 2 = b.v[1] % 2

RECURSIVE Matches(_, _)
Matches(f, x) ==
  CASE f.k = "default" -> f.b
    [] f.k = "and" -> \A i \in 1 .. Len(f.fs) : Matches(f.fs[i], x)
    [] f.k = "or" -> \E i \in 1 .. Len(f.fs) : Matches(f.fs[i], x)
    [] f.k = "not" -> ~Matches(f.fs[1], x)
    [] f.k = "eq" -> Cmp(f.c, x[f.key], f.v)
    [] f.k = "ne" -> ~Cmp(f.c, x[f.key], f.v)
    [] f.k = "prefix" -> StartsWith(x[f.key].v, f.v.v)
    [] f.k = "text" -> Occurs(LowerAll(f.v.v), LowerAll(Text(x[f.key])))
    [] f.k = "date" -> \A j \in 1 .. 3 : f.v.v[j] = 0 \/ x[f.key].v[j] = f.v.v[j]
    [] f.k = "pred" -> x[f.key].v[1] % 3 = f.v.v[1]
=============================================================================
