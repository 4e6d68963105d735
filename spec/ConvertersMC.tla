---------------------------- MODULE ConvertersMC ----------------------------
(* laws: converting back undoes converting, and nothing else is converted back *)
EXTENDS Converters, TLC
CONSTANTS MaxInt
VARIABLES kind, x
Bytes == {[i \in 1 .. 16 |-> CASE i = 7 -> 64 + (a % 16) [] i = 9 -> 128 + (a % 64) [] OTHER -> (a * i * 7) % 256] : a \in 0 .. 70}
Times == {<<y, m, d, h, 59, s, u>> : y \in {1, 4, 100, 400, 1900, 1999, 2000, 2024, 9999}, m \in {1, 2, 4, 12}, d \in {1, 28, 29, 30, 31}, h \in {0, 23}, s \in {0, 59}, u \in {0, 1, 120000, 999999}}
Init == \/ kind = "int" /\ x \in {<<n>> : n \in -MaxInt .. MaxInt}
        \/ kind = "uuid" /\ x \in Bytes
        \/ kind = "time" /\ x \in {d \in Times : IsTime(d)}
        \/ kind = "clamp" /\ x \in (0 .. 1) \X (-2 .. 2) \X (0 .. 1) \X (-2 .. 2) \X (-4 .. 4)
Next == FALSE /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
Undo == CASE kind = "uuid" -> UuidBack(Uuid(x)) = x /\ IsUuid(Uuid(x)) /\ UuidBack(<<32>> \o Uuid(x) \o <<10>>) = x /\ UuidBack(Tail(Uuid(x))) = None
          [] kind = "time" -> IsoBack(Iso(x)) = x /\ IsoBack(Tail(Iso(x))) = None /\ IsoBack(Append(Iso(x), 48)) = None
          [] kind = "int" -> Number(Decimal(IF x[1] < 0 THEN -x[1] ELSE x[1])) = (IF x[1] < 0 THEN -x[1] ELSE x[1])
          [] kind = "clamp" -> (x[1] = 1 /\ x[3] = 1 => x[2] <= x[4]) =>
               LET c == Clamp(x, x[5]) ok(v) == (x[1] = 1 => x[2] <= v) /\ (x[3] = 1 => v <= x[4])
                   Dist(u, v) == IF u < v THEN v - u ELSE u - v
               IN ok(c) /\ \A v \in -4 .. 4 : ok(v) => Dist(x[5], c) <= Dist(x[5], v)
=============================================================================
