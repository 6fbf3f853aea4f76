---------------------------- MODULE TraceFilters ----------------------------
EXTENDS Filters, TraceLog
vars == <<shape, img, l>>
Init == shape = <<>> /\ img = <<>> /\ l = 1
Same == UNCHANGED <<shape, img>>
DoBegin == Is("begin") /\ shape' = Ev.shape /\ img' = Ev.img
(* every filtering event logs the input image afterwards *)
Kept == Ev.img = img
DoCorr == Is("corr") /\ Same /\ Kept /\ Ev.oshape = shape /\ Ev.out = CorrImg(Ev.m, Ev.c, Ev.k, Ev.ks, Ev.o)
(* into another type: in units of 1/s, truncated to integers if the output holds integers *)
Truncated(x, s) == IF x < 0 THEN -((-x) \div s) ELSE x \div s
DoCorrTo == /\ Is("corrto") /\ Same /\ Kept /\ Ev.oshape = shape
            /\ LET q == CorrImg(Ev.m, Ev.c, Ev.k, Ev.ks, Ev.o) IN
               Ev.out = IF Ev.int THEN [i \in 1..Len(q) |-> Truncated(q[i], Ev.s)] ELSE q
DoCorrNan == Is("corrnan") /\ Same /\ Kept /\ Ev.out = CorrRealImg(Ev.m, Ev.c, Ev.k, Ev.ks, Ev.o)
DoLineNan == Is("linenan") /\ Same /\ Ev.out = [i \in 1..Len(Ev.in) |-> LineReal(Ev.in, Ev.k, Ev.o, i - 1)]
DoKernel == Is("kernel") /\ Same /\ Ev.front = VNeg(Ev.o) /\ Ev.back = VSub(VAddS(Ev.ks, -1), Ev.o) /\ Ev.shape = Ev.ks /\ Ev.vals = Ev.k
DoAlong == Is("along") /\ Same /\ Kept /\ Ev.oshape = shape /\ Ev.out = Along(img, shape, Ev.axis + 1, Ev.k, Ev.o)
Lines == [x \in 1..Len(Ev.axes) |-> [axis |-> Ev.axes[x], k |-> Ev.ks[x], o |-> Ev.os[x]]]
DoSep == Is("sep") /\ Same /\ Kept /\ Ev.oshape = shape /\ Ev.out = Separable(img, shape, Lines, Len(Lines))
DoNamed == Is("named") /\ Same /\ Kept /\ Ev.oshape = shape
           /\ Ev.out = Separable(img, shape, Named(Ev.name, Ev.axes, Ev.sign), Len(Ev.axes))
DoCompose == /\ Is("compose") /\ Same
             /\ Ev.shape = OuterShape(Lines, Ev.n) /\ Ev.front = VNeg(OuterOrigin(Lines, Ev.n)) /\ Ev.vals = Outer(Lines, Ev.n)
(* what kernels say of themselves *)
DoLineWin == /\ Is("linewin") /\ Same
             /\ Ev.front = -Ev.o /\ Ev.back = Len(Ev.k) - 1 - Ev.o /\ Ev.size = Len(Ev.k)
             /\ Ev.origin = Ev.o /\ Ev.orank = Ev.o /\ Ev.vals = Ev.k
DoKernel1d == Is("kernel1d") /\ Same /\ Ev.backward = Ev.o /\ Ev.forward = Ev.size - 1 - Ev.o /\ Ev.orank = Ev.o
DoSepWin == /\ Is("sepwin") /\ Same
            /\ Ev.front = [a \in 1..Ev.n |-> MinOf(0, -OuterOrigin(Lines, Ev.n)[a])]
            /\ Ev.back = [a \in 1..Ev.n |-> MaxOf(0, OuterShape(Lines, Ev.n)[a] - 1 - OuterOrigin(Lines, Ev.n)[a])]
            /\ \A i \in 1..Len(Ev.seen) - 1 : Ev.seen[i] < Ev.seen[i + 1]
            /\ {Ev.seen[i] : i \in 1..Len(Ev.seen)} = {Ev.axes[i] : i \in 1..Len(Ev.axes)}
DoLine == /\ Is("line") /\ Same /\ Ev.kept
          /\ Ev.after = Scatter(Ev.before,
                                Sampled(Strided(Ev.mem, Ev.base, Ev.stride, Ev.size), Ev.k, Ev.o, Ev.front, Ev.back, Ev.step),
                                Ev.obase, Ev.ostride, Ev.ofront, Ev.ostep)
DoGrid == /\ Is("grid2") /\ Same /\ Kept
          /\ Ev.out = Sampled2(img, shape, Ev.k, Ev.o, Ev.fs, Ev.bs, Ev.ss)
(* x / d as an integer, knowing that x / d is to be added to a large bias of a given sign: towards zero *)
ToInt(x, d) == IF Ev.bias > 0 THEN x \div d ELSE IF Ev.bias < 0 THEN -((-x) \div d)
               ELSE IF x < 0 THEN -((-x) \div d) ELSE x \div d
(* outside the region, the output keeps its former value *)
DoMedian == /\ Is("median") /\ Same /\ Kept /\ Ev.oshape = shape
            /\ LET w == Box(Ev.wf, Ev.wb)
                   r == Box(Ev.rf, Ev.rb)
               IN Ev.out = [j \in 1..Len(img) |-> LET p == PosOf(shape, j - 1) IN
                    IF ~InBox(r, p) THEN Ev.bg
                    ELSE LET x == Median2(Window(Ev.m, Ev.c, w, p)) IN IF Ev.int THEN ToInt(x, 2 * Ev.s) ELSE x]
(* unlimited regions: up to the end of the input, whatever the output *)
DoMedianIn == /\ Is("medianin") /\ Same /\ Kept
              /\ LET w == Box(Ev.wf, Ev.wb)
                     r == Box(Ev.rf, VAddS(shape, -1))
                 IN Ev.out = [j \in 1..ShapeSize(Ev.os) |-> LET p == PosOf(Ev.os, j - 1) IN
                      IF ~InBox(r, p) THEN Ev.bg
                      ELSE LET x == Median2(Window(Ev.m, Ev.c, w, p)) IN IF Ev.int THEN ToInt(x, 2 * Ev.s) ELSE x]
DoEnd == Is("end") /\ Same
Next == DoBegin \/ DoCorr \/ DoCorrTo \/ DoCorrNan \/ DoLineNan \/ DoKernel \/ DoAlong \/ DoSep \/ DoNamed \/ DoCompose \/ DoLineWin \/ DoKernel1d \/ DoSepWin \/ DoLine \/ DoGrid \/ DoMedian \/ DoMedianIn \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
