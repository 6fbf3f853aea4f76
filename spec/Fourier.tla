------------------------------ MODULE Fourier ------------------------------
(* Discrete Fourier transform plans and the buffers they share.
   A buffer has a shape and pixels <<re, im>>, or <<>> where the library promises nothing (garbage):
   plans are optimized on their buffers when created, and executing one destroys its input.
   A plan has a kind, a logical shape, an input and an output buffer, which it owns or borrows. *)
EXTENDS Shapes, Twiddles, TLC

Kinds == {"c2c", "c2ci", "r2c", "c2r"}
InverseKind(k) == CASE k = "c2c" -> "c2ci" [] k = "c2ci" -> "c2c" [] k = "r2c" -> "c2r" [] OTHER -> "r2c"
RealIn(k) == k = "r2c"
RealOut(k) == k = "c2r"
Half(s) == [s EXCEPT ![1] = @ \div 2 + 1]
InShapeOf(k, s) == IF k = "c2r" THEN Half(s) ELSE s
OutShapeOf(k, s) == IF k = "r2c" THEN Half(s) ELSE s

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Conj(x) == <<x[1], -x[2]>>
Rot(q, x) == CASE q = 0 -> x [] q = 1 -> <<x[2], -x[1]>> [] q = 2 -> <<-x[1], -x[2]>> [] OTHER -> <<-x[2], x[1]>>

RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(CSum(f, n - 1), f[n])

(* Angle between frequency k and position p in 1/t of a turn *)
RECURSIVE AngleTo(_, _, _, _, _)
AngleTo(s, k, p, t, a) == IF a = 0 THEN 0 ELSE AngleTo(s, k, p, t, a - 1) + k[a] * p[a] * (t \div s[a])
Angle(s, k, p, t) == AngleTo(s, k, p, t, Len(s)) % t

(* Exact transform of integers, where lengths are 1, 2 or 4: the roots of unity are 1, -i, -1, i *)
ExactAt(s, x, k, inv) ==
   CSum([i \in 1..Len(x) |-> LET a == Angle(s, k, PosOf(s, i - 1), 4)
                             IN Rot(IF inv THEN (4 - a) % 4 ELSE a, x[i])], Len(x))
Exact(s, x, inv) == [j \in 1..Len(x) |-> ExactAt(s, x, PosOf(s, j - 1), inv)]

(* Fixed-point transform (1/100000) for lengths up to 8 *)
FixedAt(s, x, k, inv) ==
   CSum([i \in 1..Len(x) |-> LET a == Angle(s, k, PosOf(s, i - 1), Turn)
                                 c == Cos(a)
                                 w == IF inv THEN Sin(a) ELSE -Sin(a)
                             IN <<x[i][1] * c - x[i][2] * w, x[i][1] * w + x[i][2] * c>>], Len(x))
Fixed(s, x, inv) == [j \in 1..Len(x) |-> FixedAt(s, x, PosOf(s, j - 1), inv)]

Opposite(s, k) == [a \in 1..Len(s) |-> (s[a] - k[a]) % s[a]]
(* Non-redundant half of an array of logical shape s, and back *)
HalfOf(s, x) == [j \in 1..ShapeSize(Half(s)) |-> x[IndexOf(s, PosOf(Half(s), j - 1)) + 1]]
Whole(s, h) == [j \in 1..ShapeSize(s) |->
                  LET k == PosOf(s, j - 1)
                  IN IF k[1] < Half(s)[1] THEN h[IndexOf(Half(s), k) + 1]
                     ELSE Conj(h[IndexOf(Half(s), Opposite(s, k)) + 1])]
Hermitian(s, x) == \A j \in 1..Len(x) : x[IndexOf(s, Opposite(s, PosOf(s, j - 1))) + 1] = Conj(x[j])
Flip(s, x) == [j \in 1..Len(x) |-> x[IndexOf(s, Opposite(s, PosOf(s, j - 1))) + 1]]

Garbage == <<>>
(* What each kind computes; T is Exact or Fixed. The inverse real transform is that of Hermitian data. *)
Computes(T(_, _, _), k, s, x) ==
   CASE k = "c2c"  -> T(s, x, FALSE)
     [] k = "c2ci" -> T(s, x, TRUE)
     [] k = "r2c"  -> HalfOf(s, T(s, x, FALSE))
     [] OTHER      -> IF Hermitian(s, Whole(s, x)) THEN T(s, Whole(s, x), TRUE) ELSE Garbage

(* Values too large to be followed are forgotten *)
Limit == 4000000
Tidy(x) == IF \E i \in DOMAIN x : Abs(x[i][1]) > Limit \/ Abs(x[i][2]) > Limit THEN Garbage ELSE x
Divided(x, n) == IF \A i \in DOMAIN x : x[i][1] % n = 0 /\ x[i][2] % n = 0
                 THEN [i \in DOMAIN x |-> <<x[i][1] \div n, x[i][2] \div n>>] ELSE Garbage

VARIABLES bufs,   \* sequence of buffers: shape and pixels
          plans,  \* slot -> plan or None
          gone    \* number of plans destroyed so far
fvars == <<bufs, plans, gone>>
None == [kind |-> "none"]
Alive(p) == plans[p].kind # "none"
Plan(k, s, i, o, oi, oo) == [kind |-> k, shape |-> s, ib |-> i, ob |-> o, oi |-> oi, oo |-> oo]
Buf(s) == [shape |-> s, px |-> Garbage]
Clear(b) == [bufs EXCEPT ![b].px = Garbage]

Create(p, k, s) ==
   /\ ~Alive(p)
   /\ bufs' = bufs \o <<Buf(InShapeOf(k, s)), Buf(OutShapeOf(k, s))>>
   /\ plans' = [plans EXCEPT ![p] = Plan(k, s, Len(bufs) + 1, Len(bufs) + 2, TRUE, TRUE)]
   /\ UNCHANGED gone
(* The inverse plan swaps the buffers of its parent *)
Invert(p, q) ==
   /\ Alive(p) /\ ~Alive(q)
   /\ bufs' = [bufs EXCEPT ![plans[p].ib].px = Garbage, ![plans[p].ob].px = Garbage]
   /\ plans' = [plans EXCEPT ![q] = Plan(InverseKind(plans[p].kind), plans[p].shape, plans[p].ob, plans[p].ib, FALSE, FALSE)]
   /\ UNCHANGED gone
(* The composed plan reads its parent's output, possibly as an array of another shape *)
CanCompose(p, k, s) == /\ RealIn(k) = RealOut(plans[p].kind)
                       /\ ShapeSize(InShapeOf(k, s)) = ShapeSize(bufs[plans[p].ob].shape)
Compose(p, q, k, s) ==
   /\ Alive(p) /\ ~Alive(q) /\ CanCompose(p, k, s)
   /\ bufs' = Append(Clear(plans[p].ob), Buf(OutShapeOf(k, s)))
   /\ plans' = [plans EXCEPT ![q] = Plan(k, s, plans[p].ob, Len(bufs) + 1, FALSE, TRUE)]
   /\ UNCHANGED gone
BufOf(p, side) == IF side = "in" THEN plans[p].ib ELSE plans[p].ob
Fill(p, side, x) == Alive(p) /\ bufs' = [bufs EXCEPT ![BufOf(p, side)].px = x] /\ UNCHANGED <<plans, gone>>
Set(p, side, i, x) ==
   /\ Alive(p)
   /\ bufs' = [bufs EXCEPT ![BufOf(p, side)].px = IF @ = Garbage THEN Garbage ELSE [@ EXCEPT ![i] = x]]
   /\ UNCHANGED <<plans, gone>>
Transform(p) ==
   /\ Alive(p)
   /\ LET x == bufs[plans[p].ib].px
      IN bufs' = [bufs EXCEPT ![plans[p].ib].px = Garbage,
                              ![plans[p].ob].px = IF x = Garbage THEN Garbage
                                                  ELSE Tidy(Computes(Exact, plans[p].kind, plans[p].shape, x))]
   /\ UNCHANGED <<plans, gone>>
Normalize(p) ==
   /\ Alive(p)
   /\ bufs' = [bufs EXCEPT ![plans[p].ob].px = Divided(@, ShapeSize(plans[p].shape))]
   /\ UNCHANGED <<plans, gone>>

(* Whether some other plan borrows from what p owns *)
Lender(p) == \E q \in DOMAIN plans : q # p /\ Alive(q)
                /\ \/ plans[p].oi /\ plans[p].ib \in {plans[q].ib, plans[q].ob}
                   \/ plans[p].oo /\ plans[p].ob \in {plans[q].ib, plans[q].ob}
Move(p, q) == /\ Alive(p) /\ ~Alive(q)
              /\ plans' = [plans EXCEPT ![q] = plans[p], ![p] = None] /\ UNCHANGED <<bufs, gone>>
(* The plan assigned to is destroyed with the buffers it owns *)
MoveAssign(p, q) == /\ Alive(p) /\ Alive(q) /\ p # q /\ ~Lender(q)
                    /\ plans' = [plans EXCEPT ![q] = plans[p], ![p] = None] /\ gone' = gone + 1 /\ UNCHANGED bufs
Destroy(p) == /\ Alive(p) /\ ~Lender(p)
              /\ plans' = [plans EXCEPT ![p] = None] /\ gone' = gone + 1 /\ UNCHANGED bufs
=============================================================================
