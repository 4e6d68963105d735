------------------------------ MODULE Converters ------------------------------
(* Converters and validators as functions. Strings are sequences of character codes; <<-1>> stands for None.              *)
EXTENDS Integers, Sequences
None == <<-1>>
D(n) == 48 + n
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<D(n)>> ELSE Append(Digits(n \div 10), D(n % 10))
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
(* n >= 0 with at least w digits *)
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN <<>> ELSE Append(Padded(n \div 10, w - 1), D(n % 10))
IsDigit(c) == 48 <= c /\ c <= 57
IsHex(c) == IsDigit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Space(c) == c \in {9, 10, 13, 32}
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF Space(Head(s)) THEN Strip(Tail(s)) ELSE IF Space(s[Len(s)]) THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* check states *)
Checked == <<99, 104, 101, 99, 107, 101, 100>>
Unchecked == <<117, 110>> \o Checked
(* uuids: 16 bytes *)
Hex(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE HexOf(_)
HexOf(bs) == IF bs = <<>> THEN <<>> ELSE Hex(Head(bs)) \o HexOf(Tail(bs))
Uuid(bs) == HexOf(SubSeq(bs, 1, 4)) \o <<45>> \o HexOf(SubSeq(bs, 5, 6)) \o <<45>> \o HexOf(SubSeq(bs, 7, 8)) \o <<45>> \o HexOf(SubSeq(bs, 9, 10)) \o <<45>> \o HexOf(SubSeq(bs, 11, 16))
Dashes == {9, 14, 19, 24}
(* the form of a random uuid *)
IsUuid(s) == Len(s) = 36 /\ (\A i \in 1 .. 36 : IF i \in Dashes THEN s[i] = 45 ELSE IsHex(s[i])) /\ s[15] = 52 /\ HexValue(s[20]) \in 8 .. 11
HexPart(s) == SelectSeq(s, LAMBDA c : c # 45)
UuidBack(s) == LET x == Strip(s) IN IF IsUuid(x) THEN LET h == HexPart(x) IN [i \in 1 .. 16 |-> 16 * HexValue(h[2 * i - 1]) + HexValue(h[2 * i])] ELSE None
(* datetimes: year, month, day, hour, minute, second, microsecond *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsTime(d) == d[1] \in 1 .. 9999 /\ d[2] \in 1 .. 12 /\ 1 <= d[3] /\ d[3] <= Days(d[1], d[2]) /\ d[4] <= 23 /\ d[5] <= 59 /\ d[6] <= 59
Iso(d) == Padded(d[1], 4) \o <<45>> \o Padded(d[2], 2) \o <<45>> \o Padded(d[3], 2) \o <<84>> \o Padded(d[4], 2) \o <<58>> \o Padded(d[5], 2) \o <<58>> \o Padded(d[6], 2)
          \o (IF d[7] = 0 THEN <<>> ELSE <<46>> \o Padded(d[7], 6))
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
Template == <<0, 0, 0, 0, 45, 0, 0, 45, 0, 0, 84, 0, 0, 58, 0, 0, 58, 0, 0, 46, 0, 0, 0, 0, 0, 0>>
IsoForm(s) == Len(s) \in {19, 26} /\ \A i \in 1 .. Len(s) : IF Template[i] = 0 THEN IsDigit(s[i]) ELSE s[i] = Template[i]
IsoBack(s) ==
  IF ~IsoForm(s) THEN None
  ELSE LET N(i, j) == Number(SubSeq(s, i, j))
           d == <<N(1, 4), N(6, 7), N(9, 10), N(12, 13), N(15, 16), N(18, 19), IF Len(s) = 26 THEN N(21, 26) ELSE 0>>
       IN IF IsTime(d) THEN d ELSE None
(* the number nearest to v in the range b = <<is there a minimum, minimum, is there a maximum, maximum>> *)
Clamp(b, v) == IF b[1] = 1 /\ v < b[2] THEN b[2] ELSE IF b[3] = 1 /\ v > b[4] THEN b[4] ELSE v
Result(op, a, b, res) ==
  CASE op = "int" -> res = Decimal(a[1])
    [] op = "same" -> res = a
    [] op = "check" -> res = (IF a[1] = 1 THEN Checked ELSE Unchecked)
    [] op = "uncheck" -> res = <<IF a = Checked THEN 1 ELSE 0>>
    [] op = "uuid" -> res = Uuid(a)
    [] op = "uuid back" -> res = UuidBack(a)
    [] op = "time" -> res = Iso(a)
    [] op = "time back" -> res = IsoBack(a)
    [] op = "percent" -> res = Decimal(a[1]) \o <<37>>
    \* the number k of b[1] steps in the range from b[2] to b[3], res is in units of 1/b[1]
    [] op = "scaled back" -> res[1] = a[1] * (b[3] - b[2]) + b[2] * b[1]
    [] op = "validate" -> res = <<Clamp(b, a[1])>>
    [] op = "none" -> res = None
    [] OTHER -> FALSE
=============================================================================
