---------------------------- MODULE TraceThreads ----------------------------
(* What each thread got, one thread after the other: every operation must be the one of the thread alone
   (Threads!AsAlone), on objects it owns or which all only read; the planner is used by one thread at a time. *)
EXTENDS Filters, Distribution, TraceLog
U == INSTANCE Utilities
VARIABLES board,   \* raster of which thread t writes row t only
          text,    \* text of the common image
          inside,  \* threads in the planner
          memo     \* generator -> its values
vars == <<shape, img, board, text, inside, memo, l>>
W == 5
Init == shape = <<>> /\ img = <<>> /\ board = <<>> /\ text = "" /\ inside = {} /\ memo = <<>> /\ l = 1
Same == UNCHANGED <<shape, img, board, text, inside, memo>>
DoBegin == /\ Is("begin") /\ shape' = Log[l].shape /\ img' = Log[l].img /\ board' = Log[l].board /\ text' = Log[l].text
           /\ inside' = {} /\ UNCHANGED memo
DoCorr == Is("corr") /\ Same /\ Ev.out = CorrImg(Ev.m, Ev.c, Ev.k, Ev.ks, Ev.o)
DoMedian == Is("median") /\ Same /\ Ev.out = MedianImg(Ev.m, Ev.c, Box(Ev.wf, Ev.wb))
DoSep == Is("sep") /\ Same /\ Ev.out = Separable(img, shape, [a \in 1..2 |-> [axis |-> a - 1, k |-> Ev.k, o |-> Ev.o]], 2)
DoLin == Is("linear") /\ Same /\ Ev.out = Linear(Ev.m, Ev.c, Ev.D, Ev.q)
DoCub == Is("cubic") /\ Same /\ Ev.out = Cubic(Ev.m, Ev.c, Ev.D, Ev.q)
OwnOf(e) == [i \in DOMAIN img |-> e.a * img[i] + img[i] + e.b]
DoOwn == Is("own") /\ Same /\ Ev.out = OwnOf(Ev)
(* of the operation just before *)
DoExtrema == /\ Is("extrema") /\ Same /\ Ev.equal /\ Log[l - 1].op = "own"
             /\ Ev.min = Least(OwnOf(Log[l - 1])) /\ Ev.max = Largest(OwnOf(Log[l - 1]))
(* Writes to one's row of the common raster *)
Row(t) == t * W + 1 .. t * W + W
Put(f(_)) == board' = [i \in DOMAIN board |-> f(i)] /\ UNCHANGED <<shape, img, text, inside, memo>>
DoFill == Is("fill") /\ Put(LAMBDA i : IF i \in Row(Log[l].t) THEN Log[l].v ELSE board[i])
DoAdd == Is("add") /\ Put(LAMBDA i : IF i \in Row(Log[l].t) THEN board[i] + Log[l].v ELSE board[i])
DoWrite == Is("write") /\ Put(LAMBDA i : IF i = Log[l].t * W + 1 + Log[l].i THEN Log[l].v ELSE board[i])
DoSection == Is("section") /\ Same /\ Ev.out = SubSeq(board, Ev.t * W + 1, Ev.t * W + W)
DoStats == /\ Is("stats") /\ Same /\ Ev.quantile = QuantileTimes(img, Ev.num, Ev.den) /\ Ev.median = MedianTwice(img)
           /\ Ev.min = Least(img) /\ Ev.max = Largest(img) /\ Ev.sum = Total(img)
(* a generator gives what another with the same parameters gives, whichever thread uses it *)
DoNoise == /\ Is("noise") /\ UNCHANGED <<shape, img, board, text, inside>>
           /\ LET k == <<Log[l].kind, Log[l].seed>> IN
                 /\ k \in DOMAIN memo => memo[k] = Log[l].out
                 /\ memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> Log[l].out)
DoIterate == /\ Is("iterate") /\ Same
             /\ LET b == Box(Ev.f, Ev.b) IN
                  /\ Ev.index = [i \in 1..BoxSize(b) |-> IndexOf(shape, BoxAt(b, i - 1))]
                  /\ Ev.value = [i \in 1..BoxSize(b) |-> Pixel(BoxAt(b, i - 1))]
DoText == Is("text") /\ Same /\ Ev.text = text
DoBall == Is("ball") /\ Same /\ Ev.n = Cardinality({p \in (-2..2) \X (-2..2) \X (-2..2) : p[1] * p[1] + p[2] * p[2] + p[3] * p[3] <= 4})
DoDisk == Is("disk") /\ Same /\ Ev.n = Cardinality({p \in (-2..2) \X (-2..2) : p[1] * p[1] + p[2] * p[2] <= 4})
(* what an exception says, completed by the thread which caught it *)
DoSays == /\ Is("says") /\ Same
          /\ Ev.what = IF Ev.v >= Ev.lo /\ Ev.v <= Ev.hi THEN ""
                       ELSE U!Appended(U!OutOfBounds(Ev.name, ToString(Ev.v), ToString(Ev.lo), ToString(Ev.hi)),
                                       "in operation " \o ToString(Ev.v), Ev.indent)
DoSize == Is("size") /\ Same /\ Ev.what = IF Ev.in = Ev.ref THEN "" ELSE U!WrongSize(Ev.in, Ev.ref)
DoOptions == Is("options") /\ Same /\ Ev.value = Ev.expected /\ Ev.flag /\ Ev.what /\ Ev.common = Ev.shared /\ Ev.has
DoFile == Is("file") /\ Same /\ Ev.in = Ev.out /\ Ev.shape /\ Ev.what
DoBuffer == /\ Is("buffer") /\ Same /\ Ev.aligned /\ Ev.common = img /\ Ev.out = [i \in DOMAIN img |-> img[i] + Ev.v]
            /\ \A i \in DOMAIN Ev.own : Ev.own[i] = Ev.v
DoCounts == Is("counts") /\ Same /\ Ev.out = Counts(img, Ev.edges)
RowOf(r) == SubSeq(img, r * shape[1] + 1, (r + 1) * shape[1])
DoLine == /\ Is("line") /\ Same /\ Ev.out = Sampled(RowOf(Ev.row), Ev.k, Ev.o, Ev.f, Ev.b, Ev.step)
          /\ Ev.read = [x \in DOMAIN Ev.out |-> RowOf(Ev.row)[Ev.f + (x - 1) * Ev.step + 1]]
DoPipe == /\ Is("pipe") /\ Same /\ Ev.a = Ev.start + 1 /\ Ev.b = 2 * (Ev.start + 1) /\ Ev.count = 2 /\ Ev.timed /\ ~Ev.again
DoDft == Is("dft") /\ Same /\ Ev.out = Ev.in /\ Ev.zero = SumTo(Ev.in, Len(Ev.in))
DoPlanner == /\ Is("planner") /\ UNCHANGED <<shape, img, board, text, memo>>
             /\ IF Log[l].in THEN inside = {} /\ inside' = {Log[l].t} ELSE inside = {Log[l].t} /\ inside' = {}
DoAfter == Is("after") /\ Same /\ Ev.img = img /\ Ev.board = board /\ inside = {}
DoEnd == Is("end") /\ Same
Next == DoBegin \/ DoCorr \/ DoMedian \/ DoSep \/ DoLin \/ DoCub \/ DoOwn \/ DoExtrema \/ DoFill \/ DoAdd \/ DoWrite \/ DoSection
        \/ DoStats \/ DoNoise \/ DoIterate \/ DoText \/ DoBall \/ DoDisk \/ DoSays \/ DoSize \/ DoOptions
        \/ DoFile \/ DoBuffer \/ DoCounts \/ DoLine \/ DoPipe \/ DoDft \/ DoPlanner \/ DoAfter \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
