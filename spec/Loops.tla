-------------------------------- MODULE Loops --------------------------------
(* Ways of visiting the pixels of a raster: each is a permutation of the indices; all of them but one follow the storage. *)
EXTENDS Shapes

(* first axis outermost: the last coordinate is the fastest *)
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Outermost(s) == [k \in 1..ShapeSize(s) |-> IndexOf(s, Reversed(PosOf(Reversed(s), k - 1)))]
Storage(s) == [k \in 1..ShapeSize(s) |-> k - 1]
Order(way, s) == IF way = "x-y-z" THEN Outermost(s) ELSE Storage(s)

(* A loop which adds to each pixel that of another raster and the rank of the visit *)
RankIn(order, i) == CHOOSE k \in DOMAIN order : order[k] = i - 1
Looped(c, a, order) == [i \in DOMAIN c |-> c[i] + a[i] + RankIn(order, i)]
(* and one which does not look at the rank: the order does not matter *)
Summed(c, a) == [i \in DOMAIN c |-> c[i] + a[i]]
Char(x) == ((x + 128) % 256) - 128
=============================================================================
