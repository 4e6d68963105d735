------------------------------- MODULE Tickers -------------------------------
(* The ticks of an axis (Geometry.make_pretty, make_pretty_range, LinearTicker, LogTicker).                          *)
(* Values are integers in a unit of 10^e / 100; ranges are at least 100 units, so that divisions are whole.           *)
(* At an exact threshold a floating point computation may come out on either side: both results are allowed.          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Power(_)
Power(n) == IF n = 0 THEN 1 ELSE 10 * Power(n - 1)
(* the power of ten of the leading digit of x >= 1 *)
RECURSIVE Lead(_)
Lead(x) == IF x < 10 THEN 1 ELSE 10 * Lead(x \div 10)
RECURSIVE Mag(_)
Mag(x) == IF x < 10 THEN 0 ELSE 1 + Mag(x \div 10)

(* the least pretty number (1, 2 or 5 times a power of ten) >= x *)
Above(x) == LET p == Lead(x) IN CASE x <= p -> p [] x <= 2 * p -> 2 * p [] x <= 5 * p -> 5 * p [] OTHER -> 10 * p
(* and the ones near x / m, for x >= m *)
Near(x, m) ==
  LET p == Lead(x \div m) * m IN    \* p <= x < 10 p
  {c \in {1, 2, 5, 10} :
      CASE c = 1 -> 2 * x <= 3 * p
        [] c = 2 -> 3 * p <= 2 * x /\ x <= 3 * p
        [] c = 5 -> 3 * p <= x /\ x <= 7 * p
        [] c = 10 -> 7 * p <= x}
Rounded(x, m) == {c * Lead(x \div m) : c \in Near(x, m)}
Aboves(x) == {Above(x), Above(x + 1)}

Divisions(r, n) == UNION {Rounded(u, n - 1) : u \in Aboves(r)}

Low(lo, d) == IF lo % d = 0 THEN {lo, lo - d} ELSE {(lo \div d) * d}
High(hi, d) == IF hi % d = 0 THEN {hi, hi + d} ELSE {((hi \div d) + 1) * d}

(* the decimal digits after the point that multiples of d need *)
Digits(d, e) == LET x == -(Mag(d) + e - 2) IN IF x > 0 THEN x ELSE 0

Ticks(a, b, d) == [i \in 1 .. (((b - a) \div d) + 1) |-> a + ((i - 1) * d)]

(* res: [div, min, max, values, labels, precision]; labels are the numbers they show, in the same unit *)
Linear(lo, hi, n, e, res) ==
  /\ res.div \in Divisions(hi - lo, n)
  /\ res.min \in Low(lo, res.div)
  /\ res.max \in High(hi, res.div)
  /\ res.values = Ticks(res.min, res.max, res.div)
  /\ res.precision = Digits(res.div, e)
  /\ res.labels = res.values

(* the label of another value shows it to half a division *)
Label(lo, hi, n, v, shown) == \E d \in Divisions(hi - lo, n) : 2 * Abs(shown - v) <= d + 1

Pretty(v, rounding, res) ==
  LET all == IF rounding THEN Rounded(Abs(v), 1) ELSE Aboves(Abs(v))
  IN IF v < 0 THEN -res \in all ELSE res \in all

Increasing(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]

(* logarithmic: values and numbers shown as exponents, relative to lo = 0, in a small unit *)
Log(hi, base, unit, res) ==
  /\ Len(res.values) >= 2 /\ Len(res.labels) = Len(res.values)
  /\ Increasing(res.values) /\ Increasing(res.labels)
  /\ res.values[1] <= 1 /\ res.values[Len(res.values)] >= hi - 1
  /\ \A i \in 1 .. Len(res.values) : Abs(res.values[i] - res.labels[i]) <= unit
  (* the limits contain the data *)
  /\ res.min <= 1 /\ res.max >= hi - 1
  /\ Increasing(res.minor) /\ \A i \in 1 .. Len(res.minor) : res.minor[i] \in 1 .. Len(res.values)
  (* minor ticks are those between whole powers *)
  /\ (res.minor # <<>>) => \A i \in 1 .. Len(res.values) : (i \in {res.minor[k] : k \in 1 .. Len(res.minor)}) = (res.mult[i] # 1)
  /\ \A k \in 1 .. Len(res.minor) : res.mult[res.minor[k]] \in 2 .. (base - 1)
=============================================================================
