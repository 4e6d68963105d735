------------------------------ MODULE TickersMC ------------------------------
(* for all small ranges: what the ticks chosen are good for *)
EXTENDS Tickers, TLC
CONSTANTS N, Step
VARIABLES lo, hi, n
Init == lo \in {i * Step : i \in -N .. N} /\ hi \in {i * Step : i \in -N .. N} /\ lo < hi /\ n \in 2 .. 11
Next == FALSE /\ UNCHANGED <<lo, hi, n>>
Spec == Init /\ [][Next]_<<lo, hi, n>>
Is125(d) == d \div Lead(d) \in {1, 2, 5} /\ d % Lead(d) = 0
Chosen == Divisions(hi - lo, n) # {} /\ \A d \in Divisions(hi - lo, n) : Is125(d)
(* covered, without a spare division (except at an exact multiple) *)
Cover == \A d \in Divisions(hi - lo, n) : \A a \in Low(lo, d), b \in High(hi, d) :
            /\ a <= lo /\ lo - a <= d /\ hi <= b /\ b - hi <= d
            /\ LET t == Ticks(a, b, d) IN t[1] = a /\ t[Len(t)] = b /\ Len(t) >= 2 /\ Increasing(t)
(* about as many divisions as asked for *)
Count == \A d \in Divisions(hi - lo, n) : LET w == d * (n - 1) IN 3 * w >= 2 * (hi - lo) /\ 6 * w <= 25 * (hi - lo)
Least == LET u == Above(hi - lo) IN Is125(u) /\ u >= hi - lo /\ u < 10 * (hi - lo)
=============================================================================
