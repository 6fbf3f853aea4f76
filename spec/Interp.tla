------------------------------- MODULE Interp -------------------------------
(* Extrapolation (C14) and interpolation (C15). Real positions are integers in units of 1/D. *)
EXTENDS Shapes, TLC

VARIABLES shape, img

Pixel(p) == img[IndexOf(shape, p) + 1]
Clamp1(c, s) == IF c < 0 THEN 0 ELSE IF c >= s THEN s - 1 ELSE c
Nearest(p) == [k \in 1..Len(shape) |-> Clamp1(p[k], shape[k])]
Wrapped(p) == [k \in 1..Len(shape) |-> p[k] % shape[k]]
(* m: "none" (inside only), "const", "near" or "per"; c: constant *)
Ext(m, c, p) == CASE m = "const" -> (IF InShape(shape, p) THEN Pixel(p) ELSE c)
                  [] m = "near" -> Pixel(Nearest(p))
                  [] m = "per" -> Pixel(Wrapped(p))
                  [] m = "none" -> Pixel(p)

(* Values at the closest integer positions (two per axis at mid-points) *)
Closest(D, q) == BoxSet(Box([k \in 1..Len(q) |-> (2 * q[k] + D - 1) \div (2 * D)],
                            [k \in 1..Len(q) |-> (2 * q[k] + D) \div (2 * D)]))
NearValues(m, c, D, q) == {Ext(m, c, p) : p \in Closest(D, q)}

(* Multilinear, times D^N *)
RECURSIVE Lin(_, _, _, _, _, _)
Lin(m, c, D, q, k, tail) ==
  IF k = 0 THEN Ext(m, c, tail)
  ELSE LET f == q[k] \div D
           d == q[k] % D
       IN (D - d) * Lin(m, c, D, q, k - 1, <<f>> \o tail) + d * Lin(m, c, D, q, k - 1, <<f + 1>> \o tail)
Linear(m, c, D, q) == Lin(m, c, D, q, Len(q), <<>>)

(* Catmull-Rom, times (2 D^3)^N *)
Cub4(D, d, pp, p, n, nn) == 2 * D * D * D * p + d * D * D * (n - pp) + d * d * D * (2 * pp - 5 * p + 4 * n - nn)
                              + d * d * d * (3 * p - pp - 3 * n + nn)
RECURSIVE Cub(_, _, _, _, _, _)
Cub(m, c, D, q, k, tail) ==
  IF k = 0 THEN Ext(m, c, tail)
  ELSE LET f == q[k] \div D
           d == q[k] % D
           V(i) == Cub(m, c, D, q, k - 1, <<f + i>> \o tail)
       IN Cub4(D, d, V(-1), V(0), V(1), V(2))
Cubic(m, c, D, q) == Cub(m, c, D, q, Len(q), <<>>)

(* Positions e/D further than p along axis a, where |e| is tiny with respect to D:
   the interpolations are then known up to the first order (the cubic one is continuously differentiable) *)
Shift(p, a, n) == [p EXCEPT ![a] = @ + n]
TinyLinear(m, c, D, p, a, e) ==
  D * Ext(m, c, p) + e * (IF e < 0 THEN Ext(m, c, p) - Ext(m, c, Shift(p, a, -1)) ELSE Ext(m, c, Shift(p, a, 1)) - Ext(m, c, p))
TinyCubic(m, c, D, p, a, e) == 2 * D * Ext(m, c, p) + e * (Ext(m, c, Shift(p, a, 1)) - Ext(m, c, Shift(p, a, -1)))
(* and the closest pixels to p + 1/2 + e/D *)
TinyNearest(m, c, p, a, e) == IF e < 0 THEN Ext(m, c, p) ELSE Ext(m, c, Shift(p, a, 1))

(* --- Far positions: coordinates hi * Far + lo, 0 <= lo < Far, beyond TLC's integers ---
   Reduced gives the coordinate which the border rule designates (-1 or s for outside) *)
Far == 1048576
Reduced1(m, hi, lo, s) ==
  CASE m = "per" -> ((hi % s) * (Far % s) + lo) % s
    [] OTHER -> IF hi < 0 THEN -1 ELSE IF hi > 0 THEN s ELSE MinOf(lo, s)
Reduced(m, hi, lo) == [k \in 1..Len(shape) |-> Reduced1(m, hi[k], lo[k], shape[k])]
ExtFar(m, c, hi, lo) == Ext(m, c, Reduced(m, hi, lo))
(* real positions are r/D further *)
RECURSIVE LinFar(_, _, _, _, _, _, _, _)
LinFar(m, c, D, hi, lo, r, k, tail) ==
  IF k = 0 THEN Ext(m, c, tail)
  ELSE LET V(i) == LinFar(m, c, D, hi, lo, r, k - 1, <<Reduced1(m, hi[k], lo[k] + i, shape[k])>> \o tail)
       IN (D - r[k]) * V(0) + r[k] * V(1)
RECURSIVE CubFar(_, _, _, _, _, _, _, _)
CubFar(m, c, D, hi, lo, r, k, tail) ==
  IF k = 0 THEN Ext(m, c, tail)
  ELSE LET V(i) == CubFar(m, c, D, hi, lo, r, k - 1, <<Reduced1(m, hi[k], lo[k] + i, shape[k])>> \o tail)
       IN Cub4(D, r[k], V(-1), V(0), V(1), V(2))
NearFar(m, c, D, hi, lo, r) ==
  {Ext(m, c, [k \in 1..Len(r) |->
       Reduced1(m, hi[k], lo[k] + (IF up[k] THEN (2 * r[k] + D) \div (2 * D) ELSE (2 * r[k] + D - 1) \div (2 * D)), shape[k])])
     : up \in [1..Len(r) -> BOOLEAN]}
=============================================================================
