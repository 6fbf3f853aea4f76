----------------------------- MODULE KeyValues -----------------------------
(* Key values of number types. A value is s * m * 2^e with m odd (limbs of BigNat), so that it has one
   representation: zero is [s |-> 0, m |-> <<>>, e |-> 0], infinities have an empty m and s # 0.
   A type is [int |-> TRUE, n |-> value bits, signed |-> ...] or [int |-> FALSE, p |-> precision, x |-> largest exponent]. *)
EXTENDS BigNat, TLC

Zero == [s |-> 0, m |-> <<>>, e |-> 0]
Power(s, e) == [s |-> s, m |-> <<1>>, e |-> e]
Infinite(s) == [s |-> s, m |-> <<>>, e |-> 0]
(* 2^n - 1 *)
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN <<>> ELSE IF n >= 12 THEN <<4095>> \o Ones(n - 12) ELSE <<2 ^ n - 1>>
AllOnes(s, n, e) == IF n = 0 THEN Zero ELSE [s |-> s, m |-> Ones(n), e |-> e]

Lowest(t) == IF ~t.int THEN AllOnes(-1, t.p, t.x - t.p + 1) ELSE IF t.signed THEN Power(-1, t.n) ELSE Zero
Highest(t) == IF ~t.int THEN AllOnes(1, t.p, t.x - t.p + 1) ELSE AllOnes(1, t.n, 0)
Unlimited(t) == IF t.int THEN Highest(t) ELSE Infinite(1)
HalfLowest(t) == LET v == Lowest(t) IN IF v.s = 0 THEN v ELSE [v EXCEPT !.e = @ - 1]
(* rounded up for integers *)
HalfHighest(t) == IF t.int THEN Power(1, t.n - 1) ELSE AllOnes(1, t.p, t.x - t.p)
(* Difference between consecutive values (around one for real numbers) *)
Step(t) == IF t.int THEN Power(1, 0) ELSE Power(1, 1 - t.p)
(* Integers next to the extreme ones *)
AboveLowest(t) == IF t.signed THEN AllOnes(-1, t.n, 0) ELSE Power(1, 0)
BelowHighest(t) == AllOnes(1, t.n - 1, IF t.n = 1 THEN 0 ELSE 1)

Key(t, name) ==
  CASE name = "zero" -> Zero [] name = "one" -> Power(1, 0) [] name = "min" -> Lowest(t) [] name = "max" -> Highest(t)
    [] name = "inf" -> Unlimited(t) [] name = "halfMin" -> HalfLowest(t) [] name = "halfMax" -> HalfHighest(t)
    [] name = "epsilon" -> Step(t) [] name = "almostMin" -> AboveLowest(t) [] name = "almostMax" -> BelowHighest(t)

(* --- Integer helpers on small numbers --- *)
Clamped(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* greatest integer not above x / d *)
FloorDiv(x, d) == x \div d
=============================================================================
