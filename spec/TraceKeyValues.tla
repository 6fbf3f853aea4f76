--------------------------- MODULE TraceKeyValues ---------------------------
(* Key values, scalars, clamping and flooring of the implementation, against KeyValues. *)
EXTENDS KeyValues, TraceLog
Times(n, v) == [i \in 1..n |-> v]
DoKey == Is("key") /\ Ev.out = Times(Ev.parts, Key(Ev.t, Ev.name))
DoVector == Is("vector") /\ Ev.out = Times(Ev.dim, Times(Ev.parts, Key(Ev.t, Ev.name)))
All(name) == \A i \in DOMAIN Ev.v : Ev.v[i] = Times(Ev.parts, Key(Ev.t, name))
DoClassify == Is("classify") /\ Ev.zero = All("zero") /\ Ev.one = All("one") /\ Ev.inf = All("inf")
DoScalar == Is("scalar") /\ Ev.out = Times(Ev.parts, Ev.in)
(* value of a natural *)
RECURSIVE Odd(_, _)
Odd(x, e) == IF x % 2 = 1 THEN [s |-> 1, m |-> FromNat(x), e |-> e] ELSE Odd(x \div 2, e + 1)
Of(x) == IF x = 0 THEN Zero ELSE Odd(x, 0)
(* the k-th call of the function: its argument grows by 3, the result is that argument (nothing for Booleans) plus a parity *)
Called(k) == LET x == Ev.start + 3 * k IN Of(((x * 2 + k) % 2) + (IF Ev.bool THEN 0 ELSE x))
DoApply == Is("apply") /\ Ev.calls = Ev.parts /\ Ev.arg = Ev.start + 3 * Ev.parts /\ Ev.out = [k \in 1..Ev.parts |-> Called(k)]
DoFloating == /\ Is("floating") /\ Ev.real /\ Ev.floatingParts = Ev.parts
              /\ IF Ev.t.int THEN Ev.f.x >= Ev.t.n ELSE Ev.f = Ev.t
DoClamp == Is("clamp") /\ Ev.out = Clamped(Ev.x, Ev.lo, Ev.hi)
(* the half perimeter of the unit circle, in 1e-8 and up to the precision of its type *)
DoPi == Is("pi") /\ Ev.pi >= 314159253 /\ Ev.pi <= 314159277 /\ Ev.ulps <= 2
(* hi * 2^20 + lo quarters *)
DoFloor == Is("floor") /\ Ev.ohi = Ev.hi /\ Ev.olo = FloorDiv(Ev.lo, 4)
DoTick == Is("tick") /\ Ev.out = IF Ev.side < 0 THEN Ev.n - 1 ELSE Ev.n
DoSlice == Is("slice") /\ Ev.out = SubSeq(Ev.in, 1, Ev.m) /\ Ev.after = Ev.in
DoExtend == Is("extend") /\ Ev.out = [i \in DOMAIN Ev.padding |-> IF i \in DOMAIN Ev.in THEN Ev.in[i] ELSE Ev.padding[i]] /\ Ev.after = Ev.in
DoSegment == Is("segment") /\ Ev.gotFront = Ev.front /\ Ev.back = Ev.front + Ev.size - 1 /\ Ev.gotSize = Ev.size
DoEnd == Is("end")
Init == l = 1
Next == DoPi \/ DoKey \/ DoVector \/ DoClassify \/ DoScalar \/ DoApply \/ DoFloating \/ DoClamp \/ DoFloor \/ DoTick \/ DoSlice \/ DoExtend
        \/ DoSegment \/ DoEnd
Spec == Init /\ [][Next]_l
=============================================================================
