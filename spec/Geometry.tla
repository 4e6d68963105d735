------------------------------- MODULE Geometry -------------------------------
(* Points <<y, x>>, sizes <<h, w>> and rectangles <<t, l, h, w>>. The coordinates are integers; those of float objects are   *)
(* given in units of 1/64 (all operations but products with numbers are homogeneous).                                        *)
EXTENDS Integers, Sequences
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Top(r) == r[1]
Left(r) == r[2]
Height(r) == r[3]
Width(r) == r[4]
Bottom(r) == r[1] + r[3]
Right(r) == r[2] + r[4]
Rect(t, l, b, r) == <<t, l, b - t, r - l>>
Center(k, r) == IF k = "int" THEN <<(Top(r) + Bottom(r)) \div 2, (Left(r) + Right(r)) \div 2>> ELSE <<(2 * Top(r) + Height(r)) \div 2, (2 * Left(r) + Width(r)) \div 2>>
Parts(k, r) == <<Top(r), Left(r), Bottom(r), Right(r), Height(r), Width(r), Top(r), Left(r), Top(r), Right(r), Bottom(r), Left(r), Bottom(r), Right(r)>> \o Center(k, r)
Moved(r, p) == <<r[1] + p[1], r[2] + p[2], r[3], r[4]>>
Centered(c, s) == <<c[1] - (s[1] \div 2), c[2] - (s[2] \div 2), s[1], s[2]>>
Contains(r, p) == Top(r) <= p[1] /\ p[1] < Bottom(r) /\ Left(r) <= p[2] /\ p[2] < Right(r)
Empty(r) == Height(r) <= 0 \/ Width(r) <= 0
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Intersection(a, b) == Rect(Max(Top(a), Top(b)), Max(Left(a), Left(b)), Min(Bottom(a), Bottom(b)), Min(Right(a), Right(b)))
Union(a, b) == Rect(Min(Top(a), Top(b)), Min(Left(a), Left(b)), Max(Bottom(a), Bottom(b)), Max(Right(a), Right(b)))
Meet(a, b) == Top(a) <= Bottom(b) /\ Top(b) <= Bottom(a) /\ Left(a) <= Right(b) /\ Left(b) <= Right(a)
Inset(r, dx, dy) == <<r[1] + dy, r[2] + dx, r[3] - 2 * dy, r[4] - 2 * dx>>
(* v maps from the interval at f of length fn to w in the one at t of length tn *)
Maps(v, f, fn, w, t, tn) == (w - t) * fn = (v - f) * tn
(* v is the root of n: <<whole, exact>>, v in the unit of n *)
Root(v, n) == v >= 0 /\ (IF v = 0 THEN 0 ELSE (v - 1) * (v - 1)) <= n /\ n <= (v + 1) * (v + 1)
B(x) == IF x THEN <<1>> ELSE <<0>>
(* the result res of operation op on objects of kind k *)
Result(op, k, a, b, c, res) ==
  CASE op = "p+p" -> res = Add(a, b) [] op = "p+s" -> res = Add(a, b) [] op = "s+s" -> res = Add(a, b)
    [] op = "p-p" -> res = Sub(a, b) [] op = "p-s" -> res = Sub(a, b) [] op = "s-s" -> res = Sub(a, b)
    [] op = "-p" -> res = Neg(a) [] op = "-s" -> res = Neg(a)
    [] op = "p+r" -> res = Moved(b, a) [] op = "r+p" -> res = Moved(a, b) [] op = "r-p" -> res = Moved(a, Neg(b)) [] op = "p-r" -> res = Centered(Sub(a, Center(k, b)), <<b[3], b[4]>>)
    [] op = "*" -> c[2] * res[1] = a[1] * c[1] /\ c[2] * res[2] = a[2] * c[1]        \* the number is c[1] / c[2]
    [] op = "/" -> res[1] * c[1] = a[1] * c[2] /\ res[2] * c[1] = a[2] * c[2]
    [] op = "//" -> res = <<a[1] \div c[1], a[2] \div c[1]>>
    [] op = "same" -> res = a
    [] op = "eq" -> res = B(a = b) [] op = "ne" -> res = B(a # b)
    [] op = "abs" -> Root(res[1], a[1] * a[1] + a[2] * a[2])
    [] op = "dist" -> Root(res[1], (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]))
    [] op = "mid" -> 2 * res[1] = a[1] + b[1] /\ 2 * res[2] = a[2] + b[2]
    [] op = "aspect" -> IF a[1] = 0 THEN res = <<64>> ELSE res[1] * a[1] = 64 * a[2]
    [] op = "parts" -> res = Parts(k, a)
    [] op = "tlbr" -> res = Rect(a[1], a[2], b[1], b[2])
    [] op = "tlhw" -> res = <<a[1], a[2], b[1], b[2]>>
    [] op = "center" -> res = Centered(a, b)
    [] op = "contains" -> res = B(Contains(a, b))
    [] op = "intersects" -> res = B(Meet(a, b))
    [] op = "intersect" -> IF Empty(Intersection(a, b)) THEN Empty(res) ELSE res = Intersection(a, b)
    [] op = "union" -> res = Union(a, b)
    [] op = "translated" -> res = Moved(a, b)
    [] op = "inset" -> res = Inset(a, b[1], b[2])
    [] op = "slice" -> res = <<Top(a), Bottom(a), Left(a), Right(a)>>
    [] op = "turn" -> LET d == Sub(a, b) IN res = CASE c[1] % 4 = 0 -> a [] c[1] % 4 = 1 -> Add(b, <<d[2], -d[1]>>) [] c[1] % 4 = 2 -> Add(b, Neg(d)) [] OTHER -> Add(b, <<-d[2], d[1]>>)
    \* by the angle of cosine c[1] / c[3] and sine c[2] / c[3]
    [] op = "spin" -> LET d == Sub(a, b) e == Sub(res, b) IN c[3] * e[1] = c[2] * d[2] + c[1] * d[1] /\ c[3] * e[2] = c[1] * d[2] - c[2] * d[1]
    [] op = "map point" -> Maps(a[1], b[1], b[3], res[1], c[1], c[3]) /\ Maps(a[2], b[2], b[4], res[2], c[2], c[4])
    [] op = "map size" -> Maps(a[1], 0, b[3], res[1], 0, c[3]) /\ Maps(a[2], 0, b[4], res[2], 0, c[4])
    [] op = "map rect" -> Maps(a[1], b[1], b[3], res[1], c[1], c[3]) /\ Maps(a[2], b[2], b[4], res[2], c[2], c[4]) /\ Maps(a[3], 0, b[3], res[3], 0, c[3]) /\ Maps(a[4], 0, b[4], res[4], 0, c[4])
       \* the largest rectangle with the ratio c[2] : c[1] of height to width inside of a, at its center
    [] op = "fit" -> /\ res[4] * c[2] = res[3] * c[1] /\ 2 * res[1] + res[3] = 2 * a[1] + a[3] /\ 2 * res[2] + res[4] = 2 * a[2] + a[4]
                     /\ res[3] <= a[3] /\ res[4] <= a[4] /\ (res[3] = a[3] \/ res[4] = a[4])
    [] OTHER -> FALSE
=============================================================================
