------------------------------ MODULE MCLarge ------------------------------
(* Formulas of Large against the plain definitions, on containers small enough to be enumerated.
   The container is filled one pixel at a time: what is counted of the first k is what the formulas say. *)
EXTENDS Large, TLC
CONSTANTS MaxLen, MaxDim, Primes
VARIABLES s, w, seen
vars == <<s, w, seen>>
Flt == INSTANCE Filters WITH shape <- s, img <- seen
Dst == INSTANCE Distribution
Cells == ShapeSize(s)
Formulas == {x \in (1..4) \X (0..2) \X Primes : x[1] < x[3]}
Init == /\ s \in UNION {[1..d -> 1..MaxLen] : d \in 1..MaxDim} /\ w \in Formulas /\ seen = <<>>
Fill == Len(seen) < Cells /\ seen' = Append(seen, At(w, Len(seen))) /\ UNCHANGED <<s, w>>
Next == Fill
Spec == Init /\ [][Next]_vars
K == Len(seen)
Values == 0..(w[3] - 1)
Counted == \A v \in Values : Count(w, K, v) = Cardinality({i \in DOMAIN seen : seen[i] = v})
Total == SumOf(w, K) = Dst!Total(seen)
Ranked == \A r \in 0..(K - 1) : Sorted(w, K, r) = Dst!Nth(seen, r)
Medians == K > 0 => TwiceMedian(w, K) = Dst!MedianTwice(seen) /\ FourMads(w, K) = Dst!MadFour(seen)
Histograms == \A c \in 1..(w[3] - 1) : LET e == <<0, c, w[3] - 1>> IN Bins(w, K, e) = Dst!Counts(seen, e)
Variances == K > 0 => Abs(VarMilli(w, K) * K * K - 1000 * Dst!VarNum(seen)) <= 4 * K * K
Full == K = Cells
Around == BoxSet(Box(VConst(Len(s), -2), VAddS(s, 1)))
Borders == Full => \A p \in Around : /\ Periodic(s, w, p) = Flt!Ext("per", 0, p)
                                     /\ Nearest(s, w, p) = Flt!Ext("near", 0, p)
                                     /\ Constant(s, w, p, 9) = Flt!Ext("const", 9, p)
Midway == Full => \A p \in Around : Linear2(s, w, p) = Flt!Linear("per", 0, 2, p)
Ker == [i \in 1..ShapeSize(VConst(Len(s), 2)) |-> i - 2]
Kernels == Full => \A p \in BoxSet(Domain(s)), o \in BoxSet(Domain(VConst(Len(s), 2))) :
   Correlated(s, w, Ker, VConst(Len(s), 2), o, p) = Flt!Corr("per", 0, Ker, VConst(Len(s), 2), o, p)
Lines == Full => \A a \in DOMAIN s, o \in 0..2 : LET q == Flt!Along(seen, s, a, <<1, -2, 3>>, o) IN
   \A i \in 1..Cells : Lined(s, w, a, <<1, -2, 3>>, o, PosOf(s, i - 1)) = q[i]
Mid == Full => \A p \in BoxSet(Domain(s)), h \in 0..1 : LET x == Box(VConst(Len(s), -1), VConst(Len(s), h)) IN
   TwiceMedianAt(s, w, x, p) = Flt!Median2(Flt!Window("per", 0, x, p))
Backwards == Full => \A p \in BoxSet(Box(VNeg(s), VAddS(s, -1))) :
   Reachable(s, p) /\ Pixel(s, w, Backward(s, p)) = seen[IndexOf(s, [k \in DOMAIN s |-> IF p[k] < 0 THEN s[k] + p[k] ELSE p[k]]) + 1]
Disk(r4) == Cardinality({x \in BoxSet(Box(VConst(2, -(r4 \div 4)), VConst(2, r4 \div 4))) : 16 * (x[1] * x[1] + x[2] * x[2]) <= r4 * r4})
ASSUME \A r4 \in 0..40 : DiskSize(r4) = Disk(r4)
=============================================================================
