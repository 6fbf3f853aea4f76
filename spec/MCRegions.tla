----------------------------- MODULE MCRegions -----------------------------
EXTENDS Regions
(* every box and margin of dimension 1 and 2 within bounds *)
Boxes(n, lo, hi) == {Box(f, b) : f \in [1..n -> lo..hi], b \in [1..n -> lo..hi]}
Full(X) == {x \in X : ~BoxEmpty(x)}
Margins(n, w) == {Box(f, b) : f \in [1..n -> -w..0], b \in [1..n -> 0..w]}

PartitionOK(x, m) == /\ IsSurrounding(x, m, Surround(x, m))
                     /\ UNION {BoxSet(Surround(x, m)[i]) : i \in 1..Len(Surround(x, m))} \union BoxSet(x) = BoxSet(Grow(x, m))
ASSUME \A n \in 1..2 : \A x \in Full(Boxes(n, -1, 1)), m \in Margins(n, 2) : PartitionOK(x, m)
ASSUME \A x \in Full(Boxes(3, 0, 1)), m \in Margins(3, 1) : PartitionOK(x, m)
ASSUME \A n \in 1..2 : \A x, y \in Boxes(n, -1, 1) : Shrink(Grow(x, y), y) = x /\ Grow(Shrink(x, y), y) = x
ASSUME \A n \in 1..2 : \A x \in Boxes(n, -1, 2), p \in [1..n -> -3..3] :
   ~BoxEmpty(x) => /\ InBox(x, ClampPos(p, x.front, x.back))
                   /\ InBox(x, p) => ClampPos(p, x.front, x.back) = p
ASSUME \A n \in 1..2, p \in 1..4, r4 \in 0..12 :
   LET c == VConst(n, 1) IN
   /\ \A q \in BoxSet(Box(VConst(n, -4), VConst(n, 6))) : InBall(c, p, r4, q) => InBox(BallBox(c, r4), q)
   /\ \E q \in {c} : InBall(c, p, r4, q)
ASSUME \A n \in 1..3, p \in 1..4, r4 \in 0..9 :
   LET c == VConst(n, 1)
       rows == BallRows(c, p, r4)
       row(i) == [w \in 1..rows[i][2][1] |-> [rows[i][1] EXCEPT ![1] = @ + w - 1]]
       cat[i \in 0..Len(rows)] == IF i = 0 THEN <<>> ELSE cat[i - 1] \o row(i)
   IN cat[Len(rows)] = BallSeq(c, p, r4)

(* cursors: two regions (one empty), three cursors, all interleavings *)
Cursors == 1..2
R1 == BoxSeq(Box(<<0, -1>>, <<1, 1>>))
Init == seqs = (1 :> R1 @@ 2 :> <<>>) /\ cur = (1 :> [reg |-> 1, k |-> 0] @@ 2 :> [reg |-> 2, k |-> 0])
Next == \/ \E c \in Cursors, r \in {1, 2} : BeginCur(c, r) \/ EndCur(c, r)
        \/ \E c, d \in Cursors : CopyCur(c, d)
        \/ \E c \in Cursors : NextCur(c) \/ ResetCur(c)
Spec == Init /\ [][Next]_<<seqs, cur>>
CursorInRange == \A c \in Cursors : cur[c].k \in 0..Len(seqs[cur[c].reg])
Advances == [][\A c \in Cursors : cur'[c].reg = cur[c].reg /\ cur'[c].k = cur[c].k + 1 /\ ~AtEnd(c)
                 /\ cur'[c].k < Len(seqs[cur'[c].reg])
                 => Before(Deref(c), seqs[cur'[c].reg][cur'[c].k + 1])]_<<seqs, cur>>
=============================================================================
