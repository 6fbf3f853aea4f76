---------------------------- MODULE Distribution ----------------------------
(* Statistics of a set of values. The abstract state is the values themselves: queries never change it. *)
EXTENDS Shapes

Ordered(v) == SortSeq(v, LAMBDA a, b : a < b)
Least(v) == Ordered(v)[1]
Largest(v) == Ordered(v)[Len(v)]
Nth(v, n) == Ordered(v)[n + 1]
(* num/den-th quantile, times den: linear interpolation between order statistics *)
QuantileTimes(v, num, den) ==
   LET s == Ordered(v)
       f == (num * (Len(v) - 1)) \div den
       r == (num * (Len(v) - 1)) % den
   IN IF r = 0 THEN den * s[f + 1] ELSE (den - r) * s[f + 1] + r * s[f + 2]
MedianTwice(v) == QuantileTimes(v, 1, 2)
Total(v) == SumTo(v, Len(v))
(* Four times the median absolute deviation *)
MadFour(v) == LET m == MedianTwice(v) IN MedianTwice([i \in DOMAIN v |-> Abs(2 * v[i] - m)])
Squares(v) == SumTo([i \in DOMAIN v |-> v[i] * v[i]], Len(v))
(* variance = VarNum / VarDen *)
VarNum(v) == Len(v) * Squares(v) - Total(v) * Total(v)
VarDen(v, unbiased) == Len(v) * (IF unbiased THEN Len(v) - 1 ELSE Len(v))
(* Bins are open on the right but the last one *)
InBin(x, e, i) == /\ e[i] <= x
                  /\ x < e[i + 1] \/ (i = Len(e) - 1 /\ x = e[i + 1])
Counts(v, e) == [i \in 1..(Len(e) - 1) |-> Cardinality({k \in DOMAIN v : InBin(v[k], e, i)})]
=============================================================================
