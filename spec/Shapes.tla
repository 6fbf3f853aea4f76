------------------------------- MODULE Shapes -------------------------------
(* Geometry of N-dimensional arrays: shapes, positions, boxes, row-major order.
   Axis 1 of TLA+ sequences is axis 0 of the code; coordinates are 0-based as in the code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Folds

Mul(a, b) == a * b
Add(a, b) == a + b
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)

Sum(s) == SumTo(s, Len(s))

(* Number of pixels of a shape; a shape without axes has no pixel *)
ShapeSize(s) == IF Len(s) = 0 THEN 0 ELSE ProdTo(s, Len(s))

Stride(s, k) == ProdTo(s, k - 1)  \* k is 1-based

(* Row-major index of a position: p1 + s1 * (p2 + s2 * (p3 + ...)) *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, k) == IF k > Len(s) THEN 0 ELSE p[k] + s[k] * IndexFrom(s, p, k + 1)
IndexOf(s, p) == IndexFrom(s, p, 1)

(* Inverse: position of an index *)
PosOf(s, i) == [k \in 1..Len(s) |-> (i \div Stride(s, k)) % s[k]]

InShape(s, p) == Len(p) = Len(s) /\ \A k \in 1..Len(s) : p[k] >= 0 /\ p[k] < s[k]

VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
VSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
VAddS(a, c) == [k \in 1..Len(a) |-> a[k] + c]
VNeg(a) == [k \in 1..Len(a) |-> -a[k]]
VConst(n, c) == [k \in 1..n |-> c]

(* Boxes are records with inclusive bounds *)
Box(f, b) == [front |-> f, back |-> b]
BoxDim(x) == Len(x.front)
BoxShape(x) == [k \in 1..BoxDim(x) |-> x.back[k] - x.front[k] + 1]
BoxEmpty(x) == BoxDim(x) = 0 \/ \E k \in 1..BoxDim(x) : x.back[k] < x.front[k]
BoxSize(x) == IF BoxEmpty(x) THEN 0 ELSE ShapeSize(BoxShape(x))
Domain(s) == Box(VConst(Len(s), 0), VAddS(s, -1))
InBox(x, p) == \A k \in 1..BoxDim(x) : x.front[k] <= p[k] /\ p[k] <= x.back[k]
BoxIn(x, s) == \A k \in 1..BoxDim(x) : 0 <= x.front[k] /\ x.back[k] < s[k]

(* The i-th position of a box (0-based), storage order: axis 1 fastest *)
BoxAt(x, i) == VAdd(PosOf(BoxShape(x), i), x.front)
BoxSeq(x) == [i \in 1..BoxSize(x) |-> BoxAt(x, i - 1)]
(* The same, declaratively *)
RECURSIVE SeqProduct(_, _)
SeqProduct(x, k) == IF k = 0 THEN {<<>>}
                    ELSE {Append(q, c) : q \in SeqProduct(x, k - 1), c \in x.front[k]..x.back[k]}
BoxSet(x) == SeqProduct(x, BoxDim(x))

(* Strict storage order on positions: last axis is the most significant *)
RECURSIVE LessFrom(_, _, _)
LessFrom(p, q, k) == IF k = 0 THEN FALSE
                     ELSE p[k] < q[k] \/ (p[k] = q[k] /\ LessFrom(p, q, k - 1))
Before(p, q) == LessFrom(p, q, Len(p))

(* All shapes with n axes of lengths in lo..hi *)
Shapes(n, lo, hi) == [1..n -> lo..hi]
=============================================================================
