----------------------------- MODULE Pixelwise -----------------------------
(* Element-wise arithmetic, mathematical functions, filling and generation (C09, C10).
   Integer arithmetic is interpreted (C semantics: truncated division, wrap-around of unsigned types);
   any other scalar function is a parameter: a table from operands to result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES objs  \* name -> sequence of elements

PutP(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Mag(a) == IF a < 0 THEN -a ELSE a
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Mag(a) \div Mag(b))
TruncMod(a, b) == a - b * TruncDiv(a, b)
Wrap(t, x) == CASE t = "u8" -> x % 256 [] t = "u16" -> x % 65536 [] OTHER -> x
Interpreted == {"+", "-", "*", "/", "%", "neg", "pos", "inc", "dec", "abs", "max", "min"}
IntFun(t, f, a, b) ==
  Wrap(t, CASE f = "+" -> a + b [] f = "-" -> a - b [] f = "*" -> a * b
            [] f = "/" -> TruncDiv(a, b) [] f = "%" -> TruncMod(a, b)
            [] f = "neg" -> -a [] f = "pos" -> a [] f = "inc" -> a + 1 [] f = "dec" -> a - 1
            [] f = "abs" -> Mag(a) [] f = "max" -> (IF a >= b THEN a ELSE b) [] f = "min" -> (IF a <= b THEN a ELSE b))

(* F: binary function; left and right: what each index of the result sees *)
Map2(F(_, _), n, L(_), R(_)) == [i \in 1..n |-> F(L(i), R(i))]
InPlace(x, F(_, _), L(_), R(_)) == objs' = [objs EXCEPT ![x] = Map2(F, Len(objs[x]), L, R)]
NewInstance(z, n, F(_, _), L(_), R(_)) == objs' = PutP(objs, z, Map2(F, n, L, R))

(* C10 *)
Fill(x, v) == objs' = [objs EXCEPT ![x] = [i \in DOMAIN objs[x] |-> v]]
Range(x, min, step) == objs' = [objs EXCEPT ![x] = [i \in DOMAIN objs[x] |-> min + (i - 1) * step]]
(* integer type: the step is truncated, the ends are exact *)
LinspaceInt(v, min, max, n) == /\ Len(v) = n
                               /\ n = 1 => v[1] \in {min, max}
                               /\ n > 1 => \A i \in 1..n : v[i] = IF i = n THEN max ELSE min + TruncDiv(max - min, n - 1) * (i - 1)
(* real type, scaled by n - 1 *)
LinspaceScaled(v, min, max, n) == /\ Len(v) = n
                                  /\ n > 1 => \A i \in 1..n : v[i] = min * (n - 1) + (max - min) * (i - 1)
(* the generator is called once per element, in order, with the corresponding elements of the inputs *)
CallsOK(n, ins, calls) == /\ Len(calls) = n
                          /\ \A i \in 1..n : calls[i] = [j \in 1..Len(ins) |-> ins[j][i]]
Generate(x, rets) == Len(rets) = Len(objs[x]) /\ objs' = [objs EXCEPT ![x] = rets]
IsFirstMin(v, k) == k \in DOMAIN v /\ (\A i \in DOMAIN v : v[k] <= v[i]) /\ (\A i \in 1..(k - 1) : v[i] > v[k])
IsFirstMax(v, k) == k \in DOMAIN v /\ (\A i \in DOMAIN v : v[k] >= v[i]) /\ (\A i \in 1..(k - 1) : v[i] < v[k])
============================================================================
