------------------------------- MODULE Layout -------------------------------
(* Storage of rasters: a raster is a shape and a flat sequence of pixels.
   Actions are the public accesses, by position, index, iterator and raw data. *)
EXTENDS Shapes

VARIABLES shp,  \* raster id -> shape
          mem   \* raster id -> flat pixel values, storage order

New(id, s, v) == /\ Len(v) = ShapeSize(s)
                 /\ shp' = [x \in DOMAIN shp \union {id} |-> IF x = id THEN s ELSE shp[x]]
                 /\ mem' = [x \in DOMAIN mem \union {id} |-> IF x = id THEN v ELSE mem[x]]

WriteIndex(id, i, v) == /\ i \in 0..(Len(mem[id]) - 1)
                        /\ mem' = [mem EXCEPT ![id][i + 1] = v]
                        /\ UNCHANGED shp

WritePos(id, p, v) == /\ InShape(shp[id], p)
                      /\ WriteIndex(id, IndexOf(shp[id], p), v)

ReadIndex(id, i) == mem[id][i + 1]
ReadPos(id, p) == ReadIndex(id, IndexOf(shp[id], p))

(* Checked access: the designated coordinate, or NoElement *)
InReach(c, n) == -n <= c /\ c < n
Wrap(c, n) == IF c < 0 THEN c + n ELSE c
PosInReach(s, p) == \A k \in 1..Len(s) : InReach(p[k], s[k])
WrapPos(s, p) == [k \in 1..Len(s) |-> Wrap(p[k], s[k])]

-----------------------------------------------------------------------------
(* Properties of the layout, checked by TLC for every shape within bounds *)
Bijective(s) ==
  LET n == ShapeSize(s) IN
  /\ \A p \in BoxSet(Domain(s)) : /\ IndexOf(s, p) \in 0..(n - 1)
                                  /\ PosOf(s, IndexOf(s, p)) = p
                                  /\ IndexOf(s, p) = Sum([k \in 1..Len(s) |-> p[k] * Stride(s, k)])
  /\ \A i \in 0..(n - 1) : InShape(s, PosOf(s, i)) /\ IndexOf(s, PosOf(s, i)) = i
  /\ Cardinality(BoxSet(Domain(s))) = n

OrderIsStorage(s) ==
  \A p, q \in BoxSet(Domain(s)) : Before(p, q) <=> IndexOf(s, p) < IndexOf(s, q)

BoxOrder(x) == LET q == BoxSeq(x) IN
  /\ {q[i] : i \in 1..Len(q)} = BoxSet(x)
  /\ \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1])
=============================================================================
