--------------------------- MODULE MCDistribution ---------------------------
(* Design: queries partially sort an internal copy, which must not show.
   `arr` is any arrangement the earlier queries may have left, `sorted` the cached flag. *)
EXTENDS Distribution
CONSTANTS Values, MaxLen
VARIABLES data, arr, sorted, answer
vars == <<data, arr, sorted, answer>>
Perms(s) == {t \in [DOMAIN s -> {s[i] : i \in DOMAIN s}] : \A x \in {s[i] : i \in DOMAIN s} :
              Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN s : t[i] = x})}
InOrder(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Init == /\ data \in UNION {[1..n -> Values] : n \in 1..MaxLen}
        /\ arr = data /\ sorted = InOrder(data) /\ answer = <<"none">>
(* std::nth_element: the n-th value at its place, no larger before, no smaller after *)
Selected(t, n) == \A i \in DOMAIN t : (i < n + 1 => t[i] <= t[n + 1]) /\ (i > n + 1 => t[i] >= t[n + 1])
Arranged(n) == IF sorted THEN {arr} ELSE {t \in Perms(arr) : Selected(t, n)}
DoNth == \E n \in 0..(Len(data) - 1) : \E t \in Arranged(n) :
            arr' = t /\ answer' = <<"nth", n, t[n + 1]>> /\ UNCHANGED <<data, sorted>>
DoQuantile == \E q \in {<<0, 1>>, <<1, 3>>, <<1, 2>>, <<1, 1>>} :
   LET f == (q[1] * (Len(data) - 1)) \div q[2]
       r == (q[1] * (Len(data) - 1)) % q[2]
   IN \E t \in Arranged(f) :
        IF r = 0 THEN /\ arr' = t /\ answer' = <<"q", q, q[2] * t[f + 1]>> /\ UNCHANGED <<data, sorted>>
        ELSE \E u \in (IF sorted THEN {t} ELSE {w \in Perms(t) : Selected(w, f + 1)}) :
             arr' = u /\ answer' = <<"q", q, (q[2] - r) * t[f + 1] + r * u[f + 2]>> /\ UNCHANGED <<data, sorted>>
DoSort == arr' = Ordered(arr) /\ sorted' = TRUE /\ answer' = <<"none">> /\ UNCHANGED data
Next == DoNth \/ DoQuantile \/ DoSort
Spec == Init /\ [][Next]_vars
Right == CASE answer[1] = "nth" -> answer[3] = Nth(data, answer[2])
           [] answer[1] = "q"   -> answer[3] = QuantileTimes(data, answer[2][1], answer[2][2])
           [] OTHER -> TRUE
SameValues == arr \in Perms(data)
FlagRight == sorted => InOrder(arr)
(* Laws of the definitions *)
Laws == LET e == <<-1, 0, 1, 2>> IN
   /\ MedianTwice(data) >= 2 * Least(data) /\ MedianTwice(data) <= 2 * Largest(data)
   /\ QuantileTimes(data, 0, 1) = Least(data) /\ QuantileTimes(data, 1, 1) = Largest(data)
   /\ QuantileTimes(data, 1, 3) + QuantileTimes([i \in DOMAIN data |-> -data[i]], 2, 3) = 0
   /\ SumTo(Counts(data, e), 3) = Cardinality({i \in DOMAIN data : data[i] >= -1 /\ data[i] <= 2})
   /\ VarNum(data) >= 0 /\ (VarNum(data) = 0 <=> Least(data) = Largest(data))
   /\ MadFour(data) >= 0
=============================================================================
