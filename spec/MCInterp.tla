------------------------------ MODULE MCInterp ------------------------------
(* All small images: laws of the extrapolation and interpolation definitions. *)
EXTENDS Interp
CONSTANTS Values, Few, Reach
D == 4
Init == /\ shape \in {<<1>>, <<2>>, <<4>>, <<2, 3>>, <<1, 2>>}
        /\ img \in [1..ShapeSize(shape) -> IF ShapeSize(shape) > 4 THEN Few ELSE Values]
Next == \E i \in 1..Len(img), v \in Values : img' = [img EXCEPT ![i] = v] /\ UNCHANGED shape
Spec == Init /\ [][Next]_<<shape, img>>
Around == BoxSet(Box(VConst(Len(shape), -Reach), VAddS(shape, Reach)))
Inside == {p \in Around : InShape(shape, p)}
InDomain == \A p \in Inside : \A m \in {"const", "near", "per"} : Ext(m, 9, p) = Pixel(p)
ConstOutside == \A p \in Around \ Inside : Ext("const", 9, p) = 9
Dist(p, q) == SumTo([k \in 1..Len(p) |-> Abs(p[k] - q[k])], Len(p))
NearIsClosest == \A p \in Around : \A q \in Inside : Dist(p, Nearest(p)) <= Dist(p, q)
PerPeriod == \A p \in Around : \A k \in 1..Len(shape) : Ext("per", 0, p) = Ext("per", 0, [p EXCEPT ![k] = @ + shape[k]])
AtInteger == \A p \in Around : \A m \in {"const", "near", "per"} : LET q == [k \in 1..Len(p) |-> D * p[k]] IN
   /\ NearValues(m, 1, D, q) = {Ext(m, 1, p)}
   /\ Linear(m, 1, D, q) = Ext(m, 1, p) * (IF Len(p) = 1 THEN D ELSE D * D)
   /\ Cubic(m, 1, D, q) = Ext(m, 1, p) * (IF Len(p) = 1 THEN 2 * D * D * D ELSE 4 * D * D * D * D * D * D)
(* between two neighbours, linear interpolation goes from one to the other *)
LinBetween == Len(shape) = 1 => \A x \in (-2 * D)..(3 * D) :
   LET f == x \div D IN LET a == Ext("near", 0, <<f>>) b == Ext("near", 0, <<f + 1>>) IN
   /\ Linear("near", 0, D, <<x>>) >= D * MinOf(a, b) /\ Linear("near", 0, D, <<x>>) <= D * MaxOf(a, b)
   /\ x % D # 0 => Linear("near", 0, D, <<x + 1>>) - Linear("near", 0, D, <<x>>) = b - a
(* what is said of tiny offsets is the first order of the general definitions *)
TinyOK == \A p \in Around : \A a \in 1..Len(p), e \in {-1, 1}, m \in {"const", "near", "per"} :
   LET q == [k \in 1..Len(p) |-> D * p[k] + (IF k = a THEN e ELSE 0)]
       h == [k \in 1..Len(p) |-> D * p[k] + (IF k = a THEN (D \div 2) + e ELSE 0)] IN
   /\ Linear(m, 1, D, q) = (IF Len(p) = 1 THEN 1 ELSE D) * TinyLinear(m, 1, D, p, a, e)
   /\ NearValues(m, 1, D, h) = {TinyNearest(m, 1, p, a, e)}
   /\ LET x == Ext(m, 1, Shift(p, a, -1)) y == Ext(m, 1, p) z == Ext(m, 1, Shift(p, a, 1)) IN
        (Len(p) = 1 /\ x + z = 2 * y /\ Ext(m, 1, Shift(p, a, 2)) + y = 2 * z /\ Ext(m, 1, Shift(p, a, -2)) + y = 2 * x)
          => Cubic(m, 1, D, q) = D * D * TinyCubic(m, 1, D, p, a, e)
(* affine images are reproduced *)
Affine == Len(img) = 4 /\ \A i \in 1..3 : img[i + 1] - img[i] = img[2] - img[1]
AffineOK == Affine => /\ \A x \in 0..(3 * D - 1) : Linear("none", 0, D, <<x>>) = D * img[1] + x * (img[2] - img[1])
                      /\ \A x \in D..(2 * D - 1) : Cubic("none", 0, D, <<x>>) = 2 * D * D * (D * img[1] + x * (img[2] - img[1]))
=============================================================================
