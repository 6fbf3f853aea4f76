------------------------------- MODULE Views -------------------------------
(* Rasters and their views. A view is the sequence of the memory cells it designates, in its own
   storage order; the pixels live in the memory only. *)
EXTENDS Shapes, TLC

VARIABLES memory,  \* cell (1..) -> value, for the parent's storage
          views    \* id -> [shape, cells, flat]; flat: the cells are contiguous, i.e. the view is a raster

PutV(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]

NewParent(id, s, v) == /\ memory' = v
                       /\ views' = (id :> [shape |-> s, cells |-> [k \in 1..Len(v) |-> k], flat |-> TRUE])

CellsOf(p, x) == [k \in 1..BoxSize(x) |-> views[p].cells[IndexOf(views[p].shape, BoxAt(x, k - 1)) + 1]]

(* A region is an M-dimensional contiguous slice *)
Contiguous(s, m, x) == /\ \A k \in 1..(m - 1) : x.front[k] = 0 /\ x.back[k] = s[k] - 1
                       /\ \A k \in (m + 1)..Len(s) : x.front[k] = x.back[k]
IsRun(c) == \A k \in 1..(Len(c) - 1) : c[k + 1] = c[k] + 1

Sub(id, p, x) == /\ views' = PutV(views, id, [shape |-> BoxShape(x), cells |-> CellsOf(p, x), flat |-> FALSE])
                 /\ UNCHANGED memory
Slice(id, p, m, x) == /\ Contiguous(views[p].shape, m, x)
                      /\ views' = PutV(views, id, [shape |-> SubSeq(BoxShape(x), 1, m), cells |-> CellsOf(p, x), flat |-> TRUE])
                      /\ UNCHANGED memory
SectionBox(s, lo, hi) == LET n == Len(s) IN
   Box([k \in 1..n |-> IF k = n THEN lo ELSE 0], [k \in 1..n |-> IF k = n THEN hi ELSE s[k] - 1])
Section(id, p, lo, hi) == Slice(id, p, Len(views[p].shape), SectionBox(views[p].shape, lo, hi))
Section1(id, p, i) == Slice(id, p, Len(views[p].shape) - 1, SectionBox(views[p].shape, i, i))

ReadAll(id) == [k \in 1..Len(views[id].cells) |-> memory[views[id].cells[k]]]
ReadAt(id, k) == memory[views[id].cells[k + 1]]
WriteAt(id, k, v) == memory' = [memory EXCEPT ![views[id].cells[k + 1]] = v] /\ UNCHANGED views
(* write v[1], v[2], ... to the successive pixels of the view *)
WriteAll(id, v) ==
  LET c == views[id].cells IN
  /\ Len(v) = Len(c)
  /\ memory' = [m \in DOMAIN memory |-> LET K == {k \in 1..Len(c) : c[k] = m} IN
                   IF K = {} THEN memory[m] ELSE v[CHOOSE k \in K : TRUE]]
  /\ UNCHANGED views
=============================================================================
