------------------------------ MODULE Sampling ------------------------------
(* Regular sampling of axes, grids and strided data (C13). *)
EXTENDS Shapes, TLC

VARIABLES mem,       \* underlying data: sequence of values
          samplers   \* id -> [base, size, front, back, step, stride], base: 0-based offset of element 0 in mem

PutS(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
(* A negative step goes backwards *)
Count(f, b, s) == IF s < 0 THEN (IF b > f THEN 0 ELSE ((f - b) \div (-s)) + 1)
                  ELSE IF b < f THEN 0 ELSE ((b - f) \div s) + 1
AxisSeq(f, b, s) == [k \in 1..Count(f, b, s) |-> f + (k - 1) * s]

Make(id, r) == samplers' = PutS(samplers, id, r) /\ UNCHANGED mem
(* 1-based cells of the samples *)
CellsS(id) == LET r == samplers[id] IN
   [k \in 1..Count(r.front, r.back, r.step) |-> 1 + r.base + (r.front + (k - 1) * r.step) * r.stride]
ValuesS(id) == [k \in 1..Len(CellsS(id)) |-> mem[CellsS(id)[k]]]
Shift(id, n) == samplers' = [samplers EXCEPT ![id].base = @ + n] /\ UNCHANGED mem
WriteS(id, k, v) == mem' = [mem EXCEPT ![CellsS(id)[k + 1]] = v] /\ UNCHANGED samplers
=============================================================================
