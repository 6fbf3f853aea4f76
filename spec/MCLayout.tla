------------------------------ MODULE MCLayout ------------------------------
(* Exhaustive check of the layout: every shape with at most MaxDim axes of length at most MaxLen,
   every box, and every sequence of writes on the smallest rasters. *)
EXTENDS Layout, TLC
CONSTANTS MaxDim, MaxLen, Vals
VARIABLE ghost  \* last value written at each position of raster 1, independently of the storage

AllShapes == UNION {Shapes(n, 1, MaxLen) : n \in 1..MaxDim}
ASSUME \A s \in AllShapes : Bijective(s) /\ OrderIsStorage(s)
SmallBoxes == UNION {{Box(f, b) : f \in [1..n -> -1..1], b \in [1..n -> -2..1]} : n \in 1..2}
ASSUME \A x \in SmallBoxes : BoxOrder(x)

Init == \E s \in Shapes(1, 1, 3) \union Shapes(2, 1, 2) :
          /\ shp = (1 :> s)
          /\ mem = (1 :> VConst(ShapeSize(s), 0))
          /\ ghost = [p \in BoxSet(Domain(s)) |-> 0]
Next == \E p \in DOMAIN ghost, v \in Vals :
          \/ WritePos(1, p, v) /\ ghost' = [ghost EXCEPT ![p] = v]
          \/ WriteIndex(1, IndexOf(shp[1], p), v) /\ ghost' = [ghost EXCEPT ![p] = v]
ReadsLastWrite == \A p \in DOMAIN ghost : ReadPos(1, p) = ghost[p]
WrapDesignates == \A p \in [1..Len(shp[1]) -> -3..3] :
   PosInReach(shp[1], p) <=> \E q \in DOMAIN ghost : \A k \in 1..Len(p) : q[k] = p[k] \/ q[k] = p[k] + shp[1][k]
WrapInside == \A p \in [1..Len(shp[1]) -> -3..3] : PosInReach(shp[1], p) => InShape(shp[1], WrapPos(shp[1], p))
Spec == Init /\ [][Next]_<<shp, mem, ghost>>
=============================================================================
