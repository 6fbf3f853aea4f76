----------------------------- MODULE MCSampling -----------------------------
(* All small samplings: the samples are exactly the multiples of the step from the front to the back;
   histories of shifts and writes of two samplers over a small memory. *)
EXTENDS Sampling
CONSTANTS Bound, Depth
VARIABLE steps
R == [base : {0, 1}, size : {3}, front : 0..2, back : -1..2, step : {1, 2, 3}, stride : {1, 2}]
Fits(r) == \A k \in 0..2 : LET c == 1 + r.base + k * r.stride IN k <= r.back => c \in 1..6
Init == mem = <<0, 0, 0, 0, 0, 0>> /\ samplers = <<>> /\ steps = 0
Act == \/ \E id \in {1, 2}, r \in R : Fits(r) /\ Make(id, r)
       \/ \E id \in DOMAIN samplers : \E k \in 0..(Len(CellsS(id)) - 1) : WriteS(id, k, steps)
       \/ \E id \in DOMAIN samplers, n \in {-1, 1} :
            /\ \A c \in {CellsS(id)[k] : k \in 1..Len(CellsS(id))} : c + n \in 1..6
            /\ samplers[id].base + n >= 0 /\ Shift(id, n)
Next == steps < Depth /\ steps' = steps + 1 /\ Act
Spec == Init /\ [][Next]_<<mem, samplers, steps>>
Inside == \A id \in DOMAIN samplers : \A k \in 1..Len(CellsS(id)) : CellsS(id)[k] \in 1..6
Distinct == \A id \in DOMAIN samplers : \A i, j \in 1..Len(CellsS(id)) : CellsS(id)[i] = CellsS(id)[j] => i = j
ASSUME \A f, b \in -Bound..Bound, s \in 1..Bound :
   LET S == {AxisSeq(f, b, s)[k] : k \in 1..Count(f, b, s)} IN
   /\ S = {x \in f..b : (x - f) % s = 0}
   /\ Cardinality(S) = Count(f, b, s)
   /\ \A k \in 1..(Count(f, b, s) - 1) : AxisSeq(f, b, s)[k] < AxisSeq(f, b, s)[k + 1]
ASSUME \A f, b \in -Bound..Bound, s \in 1..Bound : \* backwards: the mirror image
   AxisSeq(f, b, -s) = [k \in 1..Count(-f, -b, s) |-> -AxisSeq(-f, -b, s)[k]]
=============================================================================
