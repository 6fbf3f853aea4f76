------------------------------ MODULE Regions ------------------------------
(* Regions (boxes and balls) as sets of positions, their algebra, and the cursors which walk them.
   A cursor is a region and the number k of positions already left behind; k = size is the end. *)
EXTENDS Shapes, TLC

(* ---- box algebra ---- *)
Grow(x, m) == Box(VAdd(x.front, m.front), VAdd(x.back, m.back))
Shrink(x, m) == Box(VSub(x.front, m.front), VSub(x.back, m.back))
Shift(x, v) == Box(VAdd(x.front, v), VAdd(x.back, v))
ShiftS(x, c) == Shift(x, VConst(BoxDim(x), c))
Project(x, a) == [x EXCEPT !.back[a] = x.front[a]]
NegBox(x) == Box(VNeg(x.front), VNeg(x.back))
ClampC(c, lo, hi) == IF c < lo THEN lo ELSE IF c > hi THEN hi ELSE c
ClampPos(p, lo, hi) == [k \in 1..Len(p) |-> ClampC(p[k], lo[k], hi[k])]

ValidMargin(m) == \A k \in 1..BoxDim(m) : m.front[k] <= 0 /\ m.back[k] >= 0

(* What a list of boxes around x must be, whatever the way it is cut *)
IsSurrounding(x, m, out) ==
  LET g == Grow(x, m)
      inside(p) == InBox(x, p) IN
  /\ Len(out) <= 2 * BoxDim(x)
  /\ \A i \in 1..Len(out) : /\ BoxDim(out[i]) = BoxDim(x)
                            /\ ~BoxEmpty(out[i])
                            /\ \A k \in 1..BoxDim(x) : g.front[k] <= out[i].front[k] /\ out[i].back[k] <= g.back[k]
  \* pairwise disjoint, and disjoint from x: some axis separates them
  /\ \A i \in 1..Len(out) : \E k \in 1..BoxDim(x) : out[i].back[k] < x.front[k] \/ out[i].front[k] > x.back[k]
  /\ \A i, j \in 1..Len(out) : i < j =>
       \E k \in 1..BoxDim(x) : out[i].back[k] < out[j].front[k] \/ out[i].front[k] > out[j].back[k]
  \* disjoint and of the right total size: the union is the grown box
  /\ Sum([i \in 1..Len(out) |-> BoxSize(out[i])]) + BoxSize(x) = BoxSize(g)

(* The partition of the code: axis after axis, before then after *)
RECURSIVE SurroundFrom(_, _, _)
SurroundFrom(x, m, k) ==
  IF k > BoxDim(x) THEN <<>>
  ELSE LET y == [x EXCEPT !.front[k] = @ + m.front[k], !.back[k] = @ + m.back[k]]
           before == [x EXCEPT !.front[k] = @ + m.front[k], !.back[k] = x.front[k] - 1]
           after == [y EXCEPT !.front[k] = x.back[k] + 1]
       IN (IF m.front[k] < 0 THEN <<before>> ELSE <<>>) \o (IF m.back[k] > 0 THEN <<after>> ELSE <<>>)
          \o SurroundFrom(y, m, k + 1)
Surround(x, m) == SurroundFrom(x, m, 1)

(* ---- balls: centre, norm p, radius r4 in quarters ---- *)
Pow(a, p) == IF p = 0 THEN (IF a = 0 THEN 0 ELSE 1)
             ELSE IF p = 1 THEN a ELSE IF p = 2 THEN a * a ELSE IF p = 3 THEN a * a * a ELSE a * a * a * a
NormP(p, v) == Sum([k \in 1..Len(v) |-> Pow(Abs(v[k]), p)])
InBall(c, p, r4, q) == LET d == VSub(q, c) IN
   IF p = 1 THEN 4 * NormP(1, d) <= r4
   ELSE IF p = 2 THEN 16 * NormP(2, d) <= r4 * r4
   ELSE IF p = 3 THEN 64 * NormP(3, d) <= r4 * r4 * r4
   ELSE 256 * NormP(4, d) <= r4 * r4 * r4 * r4
BallBox(c, r4) == Box(VAddS(c, -(r4 \div 4)), VAddS(c, r4 \div 4))
BallSeq(c, p, r4) == SelectSeq(BoxSeq(BallBox(c, r4)), LAMBDA q : InBall(c, p, r4, q))
(* The same by rows, for large balls: where each begins, and its length *)
RowHalf(p, r4, d) ==   \* d: distances along the other axes; -1 if there is no such row
   LET In(w) == InBall(VConst(Len(d) + 1, 0), p, r4, <<w>> \o d)
   IN IF d = <<>> THEN r4 \div 4
      ELSE IF ~In(0) THEN -1 ELSE CHOOSE w \in 0..(r4 \div 4) : In(w) /\ ~In(w + 1)
BallRows(c, p, r4) ==
   LET b == BallBox(c, r4)
       rows == BoxSeq(Box([b.front EXCEPT ![1] = c[1]], [b.back EXCEPT ![1] = c[1]]))
       half == [i \in DOMAIN rows |-> RowHalf(p, r4, [k \in 1..(Len(c) - 1) |-> Abs(rows[i][k + 1] - c[k + 1])])]
       kept == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : half[i] >= 0)
   IN [j \in DOMAIN kept |-> <<[rows[kept[j]] EXCEPT ![1] = @ - half[kept[j]]], <<2 * half[kept[j]] + 1>>>>]

(* ---- cursors ---- *)
VARIABLES seqs,  \* region id -> sequence of its positions, in order
          cur    \* cursor id -> [reg, k]

PutF(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
NewRegion(r, s) == seqs' = PutF(seqs, r, s) /\ UNCHANGED cur
BeginCur(c, r) == cur' = PutF(cur, c, [reg |-> r, k |-> 0]) /\ UNCHANGED seqs
EndCur(c, r) == cur' = PutF(cur, c, [reg |-> r, k |-> Len(seqs[r])]) /\ UNCHANGED seqs
CopyCur(c, d) == cur' = PutF(cur, d, cur[c]) /\ UNCHANGED seqs
AtEnd(c) == cur[c].k = Len(seqs[cur[c].reg])
Deref(c) == seqs[cur[c].reg][cur[c].k + 1]
NextCur(c) == ~AtEnd(c) /\ cur' = [cur EXCEPT ![c].k = @ + 1] /\ UNCHANGED seqs
ResetCur(c) == cur' = [cur EXCEPT ![c].k = 0] /\ UNCHANGED seqs
EqCur(c, d) == cur[c].reg = cur[d].reg /\ cur[c].k = cur[d].k
=============================================================================
