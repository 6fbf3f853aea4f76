----------------------------- MODULE MCFilters -----------------------------
(* Laws of the filter definitions, for every small image and kernel. *)
EXTENDS Filters
CONSTANTS Values, KValues
KVals == {-1, 2}
VARIABLES ker, org
Init == /\ shape \in {<<1>>, <<3>>, <<2, 2>>, <<1, 3>>}
        /\ img \in [1..ShapeSize(shape) -> Values]
        /\ ker \in UNION {[1..n -> KValues] : n \in 1..3}
        /\ org \in -1..Len(ker)   \* the origin may be before or after the values
Next == UNCHANGED <<shape, img, ker, org>>
Spec == Init /\ [][Next]_<<shape, img, ker, org>>
N == Len(shape)
L(a) == [axis |-> a, k |-> ker, o |-> org]
Ks(a) == [x \in 1..N |-> IF x = a THEN Len(ker) ELSE 1]
Os(a) == [x \in 1..N |-> IF x = a THEN org ELSE 0]
(* a line kernel is an N-dimensional kernel which is flat along the other axes; cropping is extrapolating zeros *)
LineIsFlat == \A a \in 1..N : Along(img, shape, a, ker, org) = CorrImg("const", 0, ker, Ks(a), Os(a))
Commute == N = 2 => Separable(img, shape, <<L(0), L(1)>>, 2) = Separable(img, shape, <<L(1), L(0)>>, 2)
OuterOK == N = 2 => LET ls == <<L(0), L(1)>> IN
   Separable(img, shape, ls, 2) = CorrImg("const", 0, Outer(ls, 2), OuterShape(ls, 2), OuterOrigin(ls, 2))
Identity == CorrImg("near", 0, <<1>>, VConst(N, 1), VConst(N, 0)) = img
Constant == (\A i \in DOMAIN img : img[i] = img[1]) =>
   \A m \in {"near", "per"} : CorrImg(m, 0, ker, Ks(1), Os(1)) = VConst(Len(img), img[1] * SumTo(ker, Len(ker)))
(* periodic extrapolation: the total is preserved up to the kernel sum *)
Mass == SumTo(CorrImg("per", 0, ker, Ks(1), Os(1)), Len(img)) = SumTo(img, Len(img)) * SumTo(ker, Len(ker))
(* numbers: the two definitions agree; otherwise, exactly the windows of the pixels which are not numbers are contaminated *)
RealAgrees == CorrRealImg("near", 0, ker, Ks(1), Os(1)) = CorrImg("near", 0, ker, Ks(1), Os(1))
MedW == Box(VConst(N, 0), [x \in 1..N |-> IF x = 1 THEN Len(ker) - 1 ELSE 0])
MedianBounds == \A j \in 1..Len(img) : LET v == Window("near", 0, MedW, PosOf(shape, j - 1)) IN
   \E a, b \in DOMAIN v : /\ Median2(v) >= 2 * v[a] /\ Median2(v) <= 2 * v[b]
                          /\ 2 * Cardinality({i \in DOMAIN v : 2 * v[i] < Median2(v)}) <= Len(v)
                          /\ 2 * Cardinality({i \in DOMAIN v : 2 * v[i] > Median2(v)}) <= Len(v)
SampledIsSubset == N = 1 => \A f \in 0..2, b \in 0..2, s \in 1..2 : b < Len(img) =>
   \A x \in 1..Len(Samples(f, b, s)) : Sampled(img, ker, org, f, b, s)[x] = Along(img, shape, 1, ker, org)[Samples(f, b, s)[x] + 1]
=============================================================================
