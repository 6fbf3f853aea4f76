----------------------------- MODULE TraceCustom -----------------------------
(* Containers of a user's pixels, channel layouts, rasters of rasters and user's holders of the implementation, against Custom. *)
EXTENDS Custom, TraceLog
VARIABLES text,   \* container -> its pixels
          image,  \* channels
          nest    \* the rasters of a raster of rasters, and those of its copy
vars == <<text, image, nest, l>>
Init == text = <<>> /\ image = <<>> /\ nest = <<>> /\ l = 1
Same == UNCHANGED <<text, image, nest>>
(* --- Pixels --- *)
N == Len(text[1])
(* the objects alive are those of the three containers, of a vector, and the driver's *)
Show(t, extra) == /\ text' = t /\ UNCHANGED <<image, nest>>
                  /\ Log[l].after = t /\ Log[l].faults = 0 /\ Log[l].alive = 4 * Len(t[1]) + extra
Put(t) == Show([text EXCEPT ![Log[l].d + 1] = t], 0)
PutExtra(t) == Show([text EXCEPT ![Log[l].d + 1] = t], Log[l].extra)
A == text[Log[l].a + 1]
B == text[Log[l].b + 1]
D == text[Log[l].d + 1]
Name(k) == (<<"a", "b", "c">>)[k]
Other == [i \in 1..N |-> "v" \o ToString(i - 1)]
DoTerms == Is("terms") /\ Show([k \in 1..3 |-> [i \in 1..Log[l].n |-> Name(k) \o ToString(i - 1)]], 0)
DoBinary == Is("binary") /\ Put(Each(Log[l].o, A, B))
DoScalar == Is("scalar") /\ PutExtra(EachBy(Log[l].o, A, Log[l].v))
(* the ring is commutative but for differences *)
DoLeft == Is("left") /\ \/ PutExtra(ByEach(Log[l].o, Log[l].v, A))
                        \/ Log[l].o # "-" /\ PutExtra(EachBy(Log[l].o, A, Log[l].v))
DoUnary == Is("unary") /\ Put(IF Log[l].o = "-" THEN Opposite(A) ELSE A)
DoStep == Is("step") /\ Log[l].old = D /\ PutExtra(Step(Log[l].o, D))
DoGenerate == /\ Is("generate") /\ Log[l].calls = N
              /\ LET inputs == SubSeq(<<A, Other, B>>, 1, Log[l].arity) IN Put(Generated("f", inputs, N))
DoApply == /\ Is("apply") /\ Log[l].calls = N
           /\ LET inputs == SubSeq(<<D, A, B>>, 1, Log[l].arity + 1) IN Put(Generated("g", inputs, N))
DoSwap == Is("swap") /\ Show([text EXCEPT ![Log[l].d + 1] = A, ![Log[l].a + 1] = D], 0)
DoSet == Is("set") /\ Put([D EXCEPT ![Log[l].i + 1] = Log[l].v])
DoFill == Is("fill") /\ Put([i \in 1..N |-> Log[l].v])
DoReverse == Is("reverse") /\ Put([i \in 1..N |-> D[N + 1 - i]])
DoCompare == /\ Is("compare") /\ Show(text, 0) /\ Log[l].equal = (A = D) /\ Log[l].different = (A # D) /\ Log[l].text
DoRead == Is("read") /\ Show(text, Log[l].extra) /\ Log[l].out = A /\ Log[l].one = A[Log[l].i + 1] /\ Log[l].at = A[Log[l].i + 1]
DoOver == Is("over") /\ Same /\ Ev.alive = 0 /\ Ev.faults = 0
DoOrder == /\ Is("order") /\ Same /\ Ev.min = FirstLeast(Ev.keys) /\ Ev.max = FirstLargest(Ev.keys)
           /\ Ev.first = Ev.min /\ Ev.second = Ev.max
(* --- Channels --- *)
Layouts(m) == /\ image' = m /\ UNCHANGED <<text, nest>>
              /\ Log[l].structs = Interleaved(m) /\ Log[l].cxy = Interleaved(m) /\ Log[l].xyc = Planar(m)
DoImage == Is("image") /\ Layouts(Log[l].channels) /\ Pixels(Log[l].channels) = Log[l].w * Log[l].h
DoScale == Is("scale") /\ Layouts(Scaled(image, Log[l].c + 1, Log[l].k))
DoRotate == Is("rotate") /\ Layouts(Rotated(image))
DoWeighted == /\ Is("weighted") /\ Layouts(image)
              /\ LET s == Weighted(image, Log[l].weights) IN Log[l].fromStructs = s /\ Log[l].fromCxy = s /\ Log[l].fromXyc = s
DoOnes == Is("ones") /\ Layouts([c \in 1..Channels(image) |-> [i \in 1..Pixels(image) |-> 1]])
DoPixel == Is("pixel") /\ Layouts([image EXCEPT ![Log[l].c + 1][Log[l].i + 1] = Log[l].v])
(* --- Rasters of rasters --- *)
Nest(m) == nest' = [now |-> m, copy |-> nest.copy] /\ UNCHANGED <<text, image>> /\ Log[l].out = m /\ Log[l].copy = nest.copy
Both(f(_, _)) == [j \in DOMAIN nest.now |-> [i \in DOMAIN nest.now[j] |-> f(nest.now[j][i], nest.copy[j][i])]]
DoNested == /\ Is("nested") /\ UNCHANGED <<text, image>>
            /\ LET m == [j \in 1..(Log[l].w * Log[l].h) |->
                           [i \in 1..((((j - 1) % Log[l].w) + 1) * (((j - 1) \div Log[l].w) + 1)) |-> i - 1]]
               IN Log[l].out = m /\ nest' = [now |-> m, copy |-> m]
DoInner == Is("inner") /\ Nest([nest.now EXCEPT ![Log[l].j + 1] = [i \in DOMAIN @ |-> @[i] + Log[l].v]])
DoSum == Is("sum") /\ Nest(Both(LAMBDA x, y : x + y))
DoDifference == Is("difference") /\ Nest(Both(LAMBDA x, y : y - x))
DoTimes == Is("times") /\ Nest(Both(LAMBDA x, y : x * Log[l].v))
DoAgain == Is("again") /\ Nest(nest.copy)
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1] + SumOf(Tail(q))
DoSums == Is("sums") /\ Nest(nest.now) /\ Log[l].sums = [j \in DOMAIN nest.now |-> SumOf(nest.now[j])]
(* --- User's holder --- *)
DoHolder == /\ Is("holder") /\ Same /\ Ev.out = Ev.data /\ Ev.out2 = Ev.data /\ Ev.out3 = Ev.data /\ Ev.out4 = Ev.data
            /\ Ev.tags = <<"mine", "default", "listed", "sequence", "mine">> /\ Ev.apart /\ Ev.size = Len(Ev.data)
            /\ Ev.plus = [i \in DOMAIN Ev.data |-> Ev.data[i] + 1]
            /\ Ev.section = SubSeq(Ev.plus, Len(Ev.data) - Ev.w + 1, Len(Ev.data))
            /\ Ev.max = Ev.plus[FirstLargest(Ev.plus)] /\ Ev.equal /\ ~Ev.different
DoEnd == Is("end") /\ Same
Next == DoTerms \/ DoBinary \/ DoScalar \/ DoLeft \/ DoUnary \/ DoStep \/ DoGenerate \/ DoApply \/ DoSwap \/ DoSet \/ DoFill
        \/ DoReverse \/ DoCompare \/ DoRead \/ DoOver \/ DoOrder \/ DoImage \/ DoScale \/ DoRotate \/ DoWeighted \/ DoOnes
        \/ DoPixel \/ DoNested \/ DoInner \/ DoSum \/ DoDifference \/ DoTimes \/ DoAgain \/ DoSums \/ DoHolder \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
