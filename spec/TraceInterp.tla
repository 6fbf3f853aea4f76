---------------------------- MODULE TraceInterp ----------------------------
EXTENDS Interp, TraceLog
vars == <<shape, img, l>>
Init == shape = <<>> /\ img = <<>> /\ l = 1
Same == UNCHANGED <<shape, img>>
DoBegin == Is("begin") /\ shape' = Ev.shape /\ img' = Ev.img
DoPut == Is("put") /\ img' = [img EXCEPT ![Ev.i + 1] = Ev.v] /\ UNCHANGED shape
DoExt == Is("ext") /\ Same /\ Ev.got = Ext(Ev.m, Ev.c, Ev.p)
DoNear == Is("nearest") /\ Same /\ Ev.got \in NearValues(Ev.m, Ev.c, Ev.D, Ev.q)
DoLin == Is("linear") /\ Same /\ Ev.got = Linear(Ev.m, Ev.c, Ev.D, Ev.q)
DoCub == Is("cubic") /\ Same /\ Ev.got = Cubic(Ev.m, Ev.c, Ev.D, Ev.q)
DoExtFar == Is("extfar") /\ Same /\ Ev.got = ExtFar(Ev.m, Ev.c, Ev.hi, Ev.lo)
DoFar == /\ Is("far") /\ Same
         /\ Ev.got = (CASE Ev.how = "linear" -> LinFar(Ev.m, Ev.c, Ev.D, Ev.hi, Ev.lo, Ev.r, Len(Ev.r), <<>>)
                         [] Ev.how = "cubic" -> CubFar(Ev.m, Ev.c, Ev.D, Ev.hi, Ev.lo, Ev.r, Len(Ev.r), <<>>))
(* hi / 10^6 + lo / 10^12 is x / 10^6 up to 10^-10 *)
Close(hi, lo, x) == (hi = x /\ lo \in 0..100) \/ (hi = x - 1 /\ lo \in 999900..1000000)
DoFine == /\ Is("fine") /\ Same
          /\ LET n == Len(Ev.q) IN
             CASE Ev.how = "linear" -> Close(Ev.hi, Ev.lo, (1000000 \div Ev.D^n) * Linear(Ev.m, Ev.c, Ev.D, Ev.q))
               [] Ev.how = "cubic" -> Close(Ev.hi, Ev.lo, (1000000 \div (2 * Ev.D^3)^n) * Cubic(Ev.m, Ev.c, Ev.D, Ev.q))
DoTiny == /\ Is("tiny") /\ Same
          /\ Ev.got = (CASE Ev.how = "linear" -> TinyLinear(Ev.m, Ev.c, Ev.D, Ev.p, Ev.axis + 1, Ev.e)
                          [] Ev.how = "cubic" -> TinyCubic(Ev.m, Ev.c, Ev.D, Ev.p, Ev.axis + 1, Ev.e)
                          [] Ev.how = "nearest" -> TinyNearest(Ev.m, Ev.c, Ev.p, Ev.axis + 1, Ev.e))
DoNearFar == Is("nearfar") /\ Same /\ Ev.got \in NearFar(Ev.m, Ev.c, Ev.D, Ev.hi, Ev.lo, Ev.r)
(* the raster is unchanged, as are the reported shape and domain, and it is the one which is decorated *)
DoSame == Is("same") /\ Same /\ Ev.decorated /\ Ev.img = img /\ Ev.shape = shape /\ Ev.front = VConst(Len(shape), 0) /\ Ev.back = VAddS(shape, -1)
DoEnd == Is("end") /\ Same
Next == DoBegin \/ DoPut \/ DoExt \/ DoNear \/ DoLin \/ DoCub \/ DoExtFar \/ DoFar \/ DoTiny \/ DoNearFar \/ DoFine \/ DoSame \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
