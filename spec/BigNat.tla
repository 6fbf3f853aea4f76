------------------------------- MODULE BigNat -------------------------------
(* Naturals beyond TLC's 32 bits, as little-endian sequences of base-4096 limbs. *)
EXTENDS Integers, Sequences
Base == 4096

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o FromNat(n \div Base)

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0

RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, k) + Limb(b, k) + c IN <<s % Base>> \o AddC(a, b, k + 1, s \div Base)
BAdd(a, b) == AddC(a, b, 1, 0)

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, d, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[k] * d + c IN <<s % Base>> \o MulLimb(a, d, k + 1, s \div Base)

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, k) == IF k > Len(b) THEN <<>>
                     ELSE BAdd(MulLimb(a, b[k], 1, 0), <<0>> \o BMulFrom(a, b, k + 1))
BMul(a, b) == Trim(BMulFrom(a, b, 1))
=============================================================================
