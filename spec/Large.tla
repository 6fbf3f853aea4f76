------------------------------- MODULE Large -------------------------------
(* Large containers: contents are a formula of the rank, w = <<a, b, m>> with m prime and a in 1..(m-1).
   Nothing here enumerates the pixels: expected values are computed at the ranks which are looked at. *)
EXTENDS Shapes

At(w, i) == (w[1] * i + w[2]) % w[3]
Wrapped(s, p) == [k \in 1..Len(s) |-> p[k] % s[k]]
Clamped(s, p) == [k \in 1..Len(s) |-> IF p[k] < 0 THEN 0 ELSE IF p[k] >= s[k] THEN s[k] - 1 ELSE p[k]]
Pixel(s, w, p) == At(w, IndexOf(s, p))
Periodic(s, w, p) == Pixel(s, w, Wrapped(s, p))
Nearest(s, w, p) == Pixel(s, w, Clamped(s, p))
Constant(s, w, p, c) == IF InShape(s, p) THEN Pixel(s, w, p) ELSE c

(* C02: negative coordinates count from the end *)
Backward(s, p) == [k \in 1..Len(s) |-> IF p[k] < 0 THEN p[k] + s[k] ELSE p[k]]
Reachable(s, p) == \A k \in 1..Len(s) : -s[k] <= p[k] /\ p[k] < s[k]

(* How many of the n first values are v: whole periods, then what is left *)
Count(w, n, v) == (n \div w[3]) + Cardinality({i \in 0..((n % w[3]) - 1) : At(w, i) = v})
UpTo(w, n, v) == SumTo([x \in 1..(v + 1) |-> Count(w, n, x - 1)], v + 1)
(* Value at 0-based rank r once sorted *)
Sorted(w, n, r) == CHOOSE v \in 0..(w[3] - 1) : /\ UpTo(w, n, v) > r
                                                /\ v > 0 => UpTo(w, n, v - 1) <= r
SumOf(w, n) == SumTo([x \in 1..w[3] |-> (x - 1) * Count(w, n, x - 1)], w[3])
TwiceMedian(w, n) == Sorted(w, n, (n - 1) \div 2) + Sorted(w, n, n \div 2)
(* The same of deviations |2 v - t|, given their counts *)
DevUpTo(w, n, t, d) == SumTo([x \in 1..w[3] |-> IF Abs(2 * (x - 1) - t) <= d THEN Count(w, n, x - 1) ELSE 0], w[3])
SortedDev(w, n, t, r) == CHOOSE d \in 0..(2 * w[3]) : /\ DevUpTo(w, n, t, d) > r
                                                      /\ d > 0 => DevUpTo(w, n, t, d - 1) <= r
FourMads(w, n) == LET t == TwiceMedian(w, n) IN SortedDev(w, n, t, (n - 1) \div 2) + SortedDev(w, n, t, n \div 2)
InLargeBin(x, e, i) == e[i] <= x /\ (x < e[i + 1] \/ (i = Len(e) - 1 /\ x = e[i + 1]))
Bins(w, n, e) == [i \in 1..(Len(e) - 1) |->
   SumTo([x \in 1..w[3] |-> IF InLargeBin(x - 1, e, i) THEN Count(w, n, x - 1) ELSE 0], w[3])]
(* Variance in thousandths, more or less 4: moments about q, the integer part of the mean *)
Milli(x, n) == 1000 * (x \div n) + (1000 * (x % n)) \div n
VarMilli(w, n) ==
  LET q == SumOf(w, n) \div n
      r == SumOf(w, n) % n
      t == SumTo([x \in 1..w[3] |-> (x - 1 - q) * (x - 1 - q) * Count(w, n, x - 1)], w[3])
      f == Milli(r, n)
  IN Milli(t, n) - (f * f) \div 1000
NearVar(got, w, n) == Abs(got - VarMilli(w, n)) <= 5

(* Interpolation at half pixels: p2 is twice the position; the value times 2^Len(p2) *)
Linear2(s, w, p2) ==
  LET n == Len(p2)
      c == VConst(n, 2)
  IN SumTo([i \in 1..ShapeSize(c) |-> Periodic(s, w, [k \in 1..n |-> (p2[k] \div 2) + (p2[k] % 2) * PosOf(c, i - 1)[k]])], ShapeSize(c))

Correlated(s, w, k, ks, o, p) == SumTo([i \in 1..Len(k) |-> k[i] * Periodic(s, w, VAdd(p, VSub(PosOf(ks, i - 1), o)))], Len(k))
(* Out of the image, terms are dropped; a is 1-based *)
Lined(s, w, a, k, o, p) == SumTo([j \in 1..Len(k) |-> LET x == p[a] - o + j - 1 IN
   IF x < 0 \/ x >= s[a] THEN 0 ELSE k[j] * Pixel(s, w, [p EXCEPT ![a] = x])], Len(k))
TwiceMedianAt(s, w, box, p) ==
  LET v == [i \in 1..BoxSize(box) |-> Periodic(s, w, VAdd(p, BoxAt(box, i - 1)))]
      n == Len(v)
      cnt == [x \in 0..(w[3] - 1) |-> Cardinality({i \in 1..n : v[i] <= x})]
      nth(r) == CHOOSE x \in 0..(w[3] - 1) : cnt[x] > r /\ (x > 0 => cnt[x - 1] <= r)
  IN nth((n - 1) \div 2) + nth(n \div 2)

(* Disks: rows are c - r .. c + r, and the row at distance y spans 2 x + 1 pixels *)
HalfRow(r4, y) == CHOOSE x \in 0..(r4 \div 4) : /\ 16 * (x * x + y * y) <= r4 * r4
                                                /\ 16 * ((x + 1) * (x + 1) + y * y) > r4 * r4
DiskRows(r4) == [y \in 1..(r4 \div 4) |-> 2 * HalfRow(r4, y) + 1]
DiskSize(r4) == 2 * (r4 \div 4) + 1 + 2 * Sum(DiskRows(r4))

HalfShape(s) == [s EXCEPT ![1] = (@ \div 2) + 1]
=============================================================================
