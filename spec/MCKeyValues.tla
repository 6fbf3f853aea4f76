---------------------------- MODULE MCKeyValues ----------------------------
(* Key values are what they are called, by enumeration of all the values of small types. *)
EXTENDS KeyValues, Integers
CONSTANTS MaxBits, MaxPrec, MaxExp
VARIABLE t
IntTypes == {[int |-> TRUE, n |-> n, signed |-> g] : n \in 1..MaxBits, g \in BOOLEAN}
RealTypes == {[int |-> FALSE, p |-> p, x |-> x] : p \in 2..MaxPrec, x \in (MaxPrec + 1)..MaxExp}
Init == t \in IntTypes \cup RealTypes
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
RECURSIVE ToInt(_)
ToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * ToInt(Tail(m))
(* value in units of 2^-U *)
U == 24 - MaxExp
Val(v) == v.s * ToInt(v.m) * (2 ^ (v.e + U))
IntRange == (IF t.signed THEN -(2 ^ t.n) ELSE 0)..(2 ^ t.n - 1)
RealValues == {s * m * (2 ^ (e + U)) : s \in {-1, 1}, m \in 0..(2 ^ t.p - 1), e \in (1 - t.p)..(t.x - t.p + 1)}
One == 2 ^ U
IsMax(x, S) == x \in S /\ \A y \in S : y <= x
IsMin(x, S) == x \in S /\ \A y \in S : y >= x
Extremes == IF t.int THEN /\ IsMin(Val(Lowest(t)), {i * One : i \in IntRange}) /\ IsMax(Val(Highest(t)), {i * One : i \in IntRange})
            ELSE IsMin(Val(Lowest(t)), RealValues) /\ IsMax(Val(Highest(t)), RealValues)
Halves == /\ 2 * Val(HalfLowest(t)) = Val(Lowest(t))
          /\ IF t.int THEN 2 * Val(HalfHighest(t)) \in {Val(Highest(t)), Val(Highest(t)) + One} ELSE 2 * Val(HalfHighest(t)) = Val(Highest(t))
Neighbors == IF t.int THEN /\ Val(AboveLowest(t)) = Val(Lowest(t)) + Val(Step(t)) /\ Val(BelowHighest(t)) = Val(Highest(t)) - Val(Step(t))
             ELSE /\ One + Val(Step(t)) \in RealValues
                  /\ \A y \in RealValues : ~(One < y /\ y < One + Val(Step(t)))
Floors == \A x \in -20..20, d \in 1..4 : /\ d * FloorDiv(x, d) <= x /\ x < d * (FloorDiv(x, d) + 1)
Clamps == \A x \in -3..3, a \in -2..2, b \in -2..2 : a <= b => LET c == Clamped(x, a, b) IN
             a <= c /\ c <= b /\ \A y \in a..b : (x - c) * (x - c) <= (x - y) * (x - y)
=============================================================================
