------------------------------ MODULE Filters ------------------------------
(* Correlation with N-dimensional kernels (C16), line and separable kernels (C17), median filtering (C18). *)
EXTENDS Interp

(* --- C16: k is the flat sequence of kernel values, o the position of the origin in the kernel --- *)
Corr(m, c, k, ks, o, p) ==
  SumTo([i \in 1..Len(k) |-> k[i] * Ext(m, c, VAdd(p, VSub(PosOf(ks, i - 1), o)))], Len(k))
CorrImg(m, c, k, ks, o) == [j \in 1..Len(img) |-> Corr(m, c, k, ks, o, PosOf(shape, j - 1))]

(* Reals may not be numbers: they contaminate every sum they enter, even with a null coefficient *)
NotANumber == 1000000
RealSum(k, t) == IF \E i \in DOMAIN k : t[i] = NotANumber THEN NotANumber ELSE SumTo([i \in 1..Len(k) |-> k[i] * t[i]], Len(k))
CorrReal(m, c, k, ks, o, p) == RealSum(k, [i \in 1..Len(k) |-> Ext(m, c, VAdd(p, VSub(PosOf(ks, i - 1), o)))])
CorrRealImg(m, c, k, ks, o) == [j \in 1..Len(img) |-> CorrReal(m, c, k, ks, o, PosOf(shape, j - 1))]

(* --- C17: data is a sequence, i a 0-based index, terms outside are dropped --- *)
Line(data, k, o, i) ==
  SumTo([j \in 1..Len(k) |-> LET s == i - o + j IN IF s \in 1..Len(data) THEN k[j] * data[s] ELSE 0], Len(k))
LineReal(data, k, o, i) == RealSum(k, [j \in 1..Len(k) |-> LET s == i - o + j IN IF s \in 1..Len(data) THEN data[s] ELSE 0])
(* along 1-based axis a of an image v of shape s *)
Fiber(v, s, a, p) == [i \in 1..s[a] |-> v[IndexOf(s, [p EXCEPT ![a] = i - 1]) + 1]]
Along(v, s, a, k, o) == [j \in 1..Len(v) |-> LET p == PosOf(s, j - 1) IN Line(Fiber(v, s, a, p), k, o, p[a])]
(* lines: sequence of [axis (0-based), k, o] *)
RECURSIVE Separable(_, _, _, _)
Separable(v, s, lines, n) ==
  IF n = 0 THEN v ELSE LET x == lines[n] IN Along(Separable(v, s, lines, n - 1), s, x.axis + 1, x.k, x.o)
(* Outer product of line kernels with distinct axes, for dimension n *)
OuterShape(lines, n) == [a \in 1..n |-> LET L == {x \in 1..Len(lines) : lines[x].axis = a - 1} IN
                            IF L = {} THEN 1 ELSE Len(lines[CHOOSE x \in L : TRUE].k)]
OuterOrigin(lines, n) == [a \in 1..n |-> LET L == {x \in 1..Len(lines) : lines[x].axis = a - 1} IN
                            IF L = {} THEN 0 ELSE lines[CHOOSE x \in L : TRUE].o]
Outer(lines, n) == LET s == OuterShape(lines, n) IN
  [i \in 1..ShapeSize(s) |-> LET p == PosOf(s, i - 1) IN
     ProdTo([x \in 1..Len(lines) |-> lines[x].k[p[lines[x].axis + 1] + 1]], Len(lines))]
(* Usual kernels: differentiation along the first given axis, averaging along the others *)
Avg(name) == CASE name = "prewitt" -> <<1, 1, 1>> [] name = "sobel" -> <<1, 2, 1>> [] name = "scharr" -> <<3, 10, 3>>
Named(name, axes, sign) == [x \in 1..Len(axes) |->
  [axis |-> axes[x], o |-> 1,
   k |-> IF name = "laplacian" THEN <<sign, -2 * sign, sign>> ELSE IF x = 1 THEN <<sign, 0, -sign>> ELSE Avg(name)]]

(* Sampled line: samples front, front + step, ... up to back of data, written to consecutive samples of out *)
Samples(f, b, s) == IF b < f THEN <<>> ELSE [k \in 1..((b - f) \div s + 1) |-> f + (k - 1) * s]
Strided(mem, base, stride, n) == [i \in 1..n |-> mem[1 + base + (i - 1) * stride]]
Sampled(data, k, o, f, b, s) == [x \in 1..Len(Samples(f, b, s)) |-> Line(data, k, o, Samples(f, b, s)[x])]
(* write seq at cells base + (f + (x - 1) * step) * stride of mem *)
Scatter(mem, seq, base, stride, f, step) ==
  [c \in 1..Len(mem) |-> LET X == {x \in 1..Len(seq) : 1 + base + (f + (x - 1) * step) * stride = c} IN
     IF X = {} THEN mem[c] ELSE seq[CHOOSE x \in X : TRUE]]
(* 2D sampling of the correlation along the first and second axes *)
Sampled2(v, s, k, o, fs, bs, ss) ==
  LET full == Along(Along(v, s, 1, k, o), s, 2, k, o)
      xs == Samples(fs[1], bs[1], ss[1])
      ys == Samples(fs[2], bs[2], ss[2])
  IN [i \in 1..(Len(xs) * Len(ys)) |-> full[IndexOf(s, <<xs[((i - 1) % Len(xs)) + 1], ys[((i - 1) \div Len(xs)) + 1]>>) + 1]]

(* --- C18 --- *)
Window(m, c, w, p) == [i \in 1..BoxSize(w) |-> Ext(m, c, VAdd(p, BoxAt(w, i - 1)))]
(* k-th smallest (1-based) *)
Kth(v, k) == CHOOSE x \in {v[i] : i \in 1..Len(v)} :
   /\ Cardinality({i \in 1..Len(v) : v[i] < x}) < k
   /\ Cardinality({i \in 1..Len(v) : v[i] <= x}) >= k
(* Twice the median *)
Median2(v) == LET n == Len(v) IN IF n % 2 = 1 THEN 2 * Kth(v, n \div 2 + 1) ELSE Kth(v, n \div 2) + Kth(v, n \div 2 + 1)
Half(x) == IF x < 0 THEN -((-x) \div 2) ELSE x \div 2
MedianImg(m, c, w) == [j \in 1..Len(img) |-> Median2(Window(m, c, w, PosOf(shape, j - 1)))]
=============================================================================
