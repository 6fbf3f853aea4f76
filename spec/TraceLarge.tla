----------------------------- MODULE TraceLarge -----------------------------
(* Operations on large containers, observed at selected ranks, against Large. *)
EXTENDS Large, TraceLog
VARIABLES shape, w
vars == <<shape, w, l>>
Init == shape = <<>> /\ w = <<>> /\ l = 1
Keep == UNCHANGED <<shape, w>>
N == ShapeSize(shape)
E == Log[l]
(* Every rank which is looked at exists, and there is one value per rank *)
Seen(n) == /\ Len(E.vals) = Len(E.ranks) /\ Len(E.ranks) > 0
           /\ \A i \in DOMAIN E.ranks : 0 <= E.ranks[i] /\ E.ranks[i] < n
Vals(F(_)) == /\ Seen(E.n)
              /\ \A i \in DOMAIN E.ranks : E.vals[i] = F(E.ranks[i])
Whole(F(_)) == E.n = N /\ Vals(F)
Mine(i) == At(w, i)
Their(i) == At(E.with, i)
DoBegin == Is("begin") /\ shape' = E.shape /\ w' = E.f

DoAt == /\ Is("at") /\ Keep /\ E.n = N /\ Len(E.ps) = Len(E.vals) /\ Len(E.ps) > 0
        /\ \A i \in DOMAIN E.ps : /\ Reachable(shape, E.ps[i])
                                  /\ E.vals[i] = Pixel(shape, w, Backward(shape, E.ps[i]))
DoAtBad == Is("atbad") /\ Keep /\ E.thrown = ~Reachable(shape, E.p)
DoVisit == /\ Is("visit") /\ Keep
           /\ LET x == Box(E.front, E.back) IN
                /\ E.n = BoxSize(x) /\ E.size = E.n
                /\ \A i \in DOMAIN E.ranks : E.ps[i] = BoxAt(x, E.ranks[i])
DoSub == /\ Is("sub") /\ Keep
         /\ LET x == Box(E.front, E.back) IN
              /\ BoxIn(x, shape) /\ E.n = BoxSize(x) /\ E.size = E.n
              /\ \A i \in DOMAIN E.ranks : E.vals[i] = IndexOf(shape, BoxAt(x, E.ranks[i]))
DoWritten == Is("written") /\ Keep /\ E.n = BoxSize(Box(E.front, E.back))
DoSection == /\ Is("section") /\ Keep
             /\ LET d == Len(shape)
                    k == Stride(shape, d) IN
                  /\ E.off = E.i * k /\ E.size = ShapeSize(SubSeq(shape, 1, d - 1))
                  /\ E.offs = E.i * k /\ E.sizes = (E.j - E.i + 1) * k

DoMade == Is("made") /\ Keep /\ Whole(Mine)
DoWrong == Is("wrong") /\ Keep /\ E.thrown = (E.size # N)
DoSum == Is("sum") /\ Keep /\ Whole(LAMBDA i : Mine(i) + Their(i))
DoDifference == Is("difference") /\ Keep /\ Whole(LAMBDA i : Mine(i) - Their(i))
DoScaled == Is("scaled") /\ Keep /\ Whole(LAMBDA i : Mine(i) * E.with[4])
DoOpposite == Is("opposite") /\ Keep /\ Whole(LAMBDA i : -Mine(i))
DoSquare == Is("square") /\ Keep /\ Whole(LAMBDA i : Mine(i) * Mine(i))
DoFilled == Is("filled") /\ Keep /\ Whole(LAMBDA i : E.with[1])
DoRanged == Is("ranged") /\ Keep /\ Whole(LAMBDA i : E.with[1] + E.with[2] * i)
DoApplied == Is("applied") /\ Keep /\ Whole(LAMBDA i : 11 * Mine(i))
(* all 5 but 2 at the first rank and 8 at the second one, if different *)
DoExtrema == /\ Is("extrema") /\ Keep /\ E.n = N
             /\ LET i == E.ranks[1]
                    j == E.ranks[2]
                    top == IF i # j THEN j ELSE IF i = 0 THEN 1 ELSE 0
                IN E.vals = <<i, top, i, top>>
DoDist == Is("dist") /\ Keep /\ E.n = N /\ E.vals = <<0, w[3] - 1>>
(* evenly spaced: tenths, times 100000, within 3 / 10000 *)
DoSpaced == /\ Is("spaced") /\ Keep /\ Seen(E.n)
            /\ \A i \in DOMAIN E.ranks : Abs(E.vals[i] - 10000 * E.ranks[i]) <= 30
SampleCount == ((E.with[2] - E.with[1]) \div E.with[3]) + 1
DoSamples == /\ Is("samples") /\ Keep /\ E.n = SampleCount
             /\ Vals(LAMBDA i : Mine((E.with[1] + i * E.with[3]) * E.with[4]))
DoAxis == Is("axis") /\ Keep /\ E.n = SampleCount /\ Vals(LAMBDA i : E.with[1] + i * E.with[3])
DoBall == /\ Is("ball") /\ Keep /\ E.n = DiskSize(E.r4) /\ E.size = E.n
          /\ E.first = E.c[2] - (E.r4 \div 4) /\ E.last = E.c[2] + (E.r4 \div 4) /\ E.middle = 2 * (E.r4 \div 4) + 1
DoExt == /\ Is("ext") /\ Keep /\ E.const = Constant(shape, w, E.p, 99) /\ E.near = Nearest(shape, w, E.p)
         /\ E.per = Periodic(shape, w, E.p)
DoLinear == Is("linear") /\ Keep /\ E.got = Linear2(shape, w, E.p2)
DoCorr == Is("corr") /\ Keep /\ Whole(LAMBDA i : Correlated(shape, w, E.k, E.ks, E.o, PosOf(shape, i)))
DoAlong == Is("along") /\ Keep /\ Whole(LAMBDA i : Lined(shape, w, E.axis + 1, E.k, E.o, PosOf(shape, i)))
DoMedian == /\ Is("median") /\ Keep /\ E.n = N /\ Len(E.vals2) = Len(E.ranks)
            /\ \A i \in DOMAIN E.ranks : LET m == TwiceMedianAt(shape, w, Box(E.wf, E.wb), PosOf(shape, E.ranks[i])) IN
                  E.vals2[i] = IF E.real THEN m ELSE 2 * (m \div 2)
(* Transform of an impulse: flat; and back *)
DoImpulse == /\ Is("impulse") /\ Keep /\ 0 <= E.i /\ E.i < N
             /\ E.out = (IF E.half THEN ShapeSize(HalfShape(shape)) ELSE N)
             /\ E.flat = E.out /\ E.re = E.v /\ E.im = 0
DoRestored == /\ Is("restored") /\ Keep /\ E.nonzero = 1
              /\ \A i \in DOMAIN E.ranks : E.vals[i] = IF E.ranks[i] = E.i THEN E.v ELSE 0
DoStats == /\ Is("stats") /\ Keep /\ E.n = N /\ E.min = 0 /\ E.max = w[3] - 1 /\ E.sum = SumOf(w, N)
           /\ Len(E.nth) = Len(E.ranks) /\ \A i \in DOMAIN E.ranks : E.nth[i] = Sorted(w, N, E.ranks[i])
           /\ E.hist = Bins(w, N, E.edges) /\ E.median2 = TwiceMedian(w, N) /\ E.mad4 = FourMads(w, N)
           /\ NearVar(E.var, w, N)
DoShape == Is("shape") /\ Keep /\ E.got = shape
DoDiffer == Is("differ") /\ Keep /\ ~E.eq /\ E.ne
DoEqual == Is("equal") /\ Keep /\ E.eq /\ ~E.ne
V(i) == ToString(Mine(i))
DoText == /\ Is("text") /\ Keep /\ E.n = N
          /\ E.got = "[" \o V(0) \o ", " \o V(1) \o ", " \o V(2) \o " ... " \o V(N - 3) \o ", " \o V(N - 2) \o ", " \o V(N - 1) \o "]"
DoEnd == Is("end") /\ Keep
Next == \/ DoBegin \/ DoAt \/ DoAtBad \/ DoVisit \/ DoSub \/ DoWritten \/ DoSection \/ DoMade \/ DoWrong \/ DoSum \/ DoDifference
        \/ DoScaled \/ DoOpposite \/ DoSquare \/ DoFilled \/ DoRanged \/ DoApplied \/ DoExtrema \/ DoDist \/ DoSpaced \/ DoSamples
        \/ DoAxis \/ DoBall \/ DoExt \/ DoLinear \/ DoCorr \/ DoAlong \/ DoMedian \/ DoImpulse \/ DoRestored \/ DoStats \/ DoShape
        \/ DoDiffer \/ DoEqual \/ DoText \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
