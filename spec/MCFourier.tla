----------------------------- MODULE MCFourier -----------------------------
(* All short histories of a few plans, and the laws of the transform on every small image *)
EXTENDS Fourier
CONSTANTS Slots, MaxOps
VARIABLE ops, src
mvars == <<bufs, plans, gone, ops, src>>
ShapesUsed == {<<2>>, <<4>>, <<1, 2>>}
One == <<1, 0>>
Zero == <<0, 0>>
Fillers(s) == {[i \in 1..ShapeSize(s) |-> IF i = 1 THEN <<2, 0>> ELSE IF i = 2 THEN <<-1, 0>> ELSE Zero]}
Init == /\ bufs = <<>> /\ plans = [p \in Slots |-> None] /\ gone = 0 /\ ops = 0 /\ src = [p \in Slots |-> Garbage]
Free == {p \in Slots : ~Alive(p) /\ \A q \in Slots : q < p => Alive(q)}
Next ==
   /\ ops < MaxOps /\ ops' = ops + 1
   /\ \/ \E p \in Free, k \in Kinds, s \in ShapesUsed : Create(p, k, s) /\ UNCHANGED src
      \/ \E p \in Slots, q \in Free : Alive(p) /\ Invert(p, q) /\ UNCHANGED src
      \/ \E p \in Slots, q \in Free, k \in Kinds, s \in ShapesUsed : Alive(p) /\ Compose(p, q, k, s) /\ UNCHANGED src
      \/ \E p \in Slots : Alive(p) /\ \E x \in Fillers(bufs[plans[p].ib].shape) :
            Fill(p, "in", x) /\ src' = [src EXCEPT ![p] = x]
      \/ \E p \in Slots : Alive(p) /\ bufs[plans[p].ib].px # Garbage /\ Transform(p) /\ UNCHANGED src
      \/ \E p \in Slots : Alive(p) /\ bufs[plans[p].ob].px # Garbage /\ Normalize(p) /\ UNCHANGED src
      \/ \E p \in Slots, q \in Free : Alive(p) /\ Move(p, q) /\ src' = [src EXCEPT ![q] = src[p]]
      \/ \E p, q \in Slots : MoveAssign(p, q) /\ src' = [src EXCEPT ![q] = src[p]]
      \/ \E p \in Slots : Destroy(p) /\ UNCHANGED src
Spec == Init /\ [][Next]_mvars
Fits == \A p \in Slots : Alive(p) =>
   /\ ShapeSize(bufs[plans[p].ib].shape) = ShapeSize(InShapeOf(plans[p].kind, plans[p].shape))
   /\ ShapeSize(bufs[plans[p].ob].shape) = ShapeSize(OutShapeOf(plans[p].kind, plans[p].shape))
   /\ \A b \in {plans[p].ib, plans[p].ob} : Len(bufs[b].px) \in {0, ShapeSize(bufs[b].shape)}
OneOwner == \A p, q \in Slots : Alive(p) /\ Alive(q) /\ p # q =>
   LET own(r) == (IF plans[r].oi THEN {plans[r].ib} ELSE {}) \cup (IF plans[r].oo THEN {plans[r].ob} ELSE {})
   IN own(p) \cap own(q) = {}
(* Every buffer a plan borrows is owned by a living plan *)
NoDangling == \A p \in Slots : Alive(p) => \A b \in {plans[p].ib, plans[p].ob} :
   \E q \in Slots : Alive(q) /\ ((plans[q].oi /\ plans[q].ib = b) \/ (plans[q].oo /\ plans[q].ob = b))

(* Laws, on all small arrays *)
Small == UNION {{<<s, x>> : x \in [1..ShapeSize(s) -> {Zero, One, <<-1, 2>>}]} : s \in {<<1>>, <<2>>, <<4>>, <<2, 2>>, <<1, 4>>}}
Reals == {sx \in Small : \A i \in DOMAIN sx[2] : sx[2][i][2] = 0}
Times(n, x) == [i \in DOMAIN x |-> <<n * x[i][1], n * x[i][2]>>]
ASSUME RoundTrip == \A sx \in Small : Exact(sx[1], Exact(sx[1], sx[2], FALSE), TRUE) = Times(ShapeSize(sx[1]), sx[2])
ASSUME Twice == \A sx \in Small : Exact(sx[1], Exact(sx[1], sx[2], FALSE), FALSE) = Times(ShapeSize(sx[1]), Flip(sx[1], sx[2]))
ASSUME RealIsHermitian == \A sx \in Reals : /\ Hermitian(sx[1], Exact(sx[1], sx[2], FALSE))
                                            /\ Whole(sx[1], HalfOf(sx[1], Exact(sx[1], sx[2], FALSE))) = Exact(sx[1], sx[2], FALSE)
ASSUME RealRoundTrip == \A sx \in Reals : Computes(Exact, "c2r", sx[1], Computes(Exact, "r2c", sx[1], sx[2])) = Times(ShapeSize(sx[1]), sx[2])
ASSUME FixedIsExact == \A sx \in Small : \A v \in {TRUE, FALSE} : Fixed(sx[1], sx[2], v) = Times(100000, Exact(sx[1], sx[2], v))
ASSUME TwiddleNorm == \A a \in 0..839 : LET c == Cos(a) \div 10 s == Sin(a) \div 10 IN Abs(c * c + s * s - 100000000) < 30000
=============================================================================
