---------------------------- MODULE TraceChrono ----------------------------
EXTENDS Chrono, TraceLog
vars == <<now, chr, l>>
Slots == 0..3
Init == now = 0 /\ chr = [s \in Slots |-> New(1, 0)] /\ l = 1
Same == UNCHANGED cvars
DoBegin == Is("begin") /\ now' = 0 /\ UNCHANGED chr
DoMake == Is("make") /\ Make(Log[l].s, Log[l].u, Log[l].off)
DoAdvance == Is("advance") /\ Advance(Log[l].d)
DoReset == Is("reset") /\ Reset(Log[l].s, Log[l].off)
DoStart == Is("start") /\ Start(Log[l].s)
DoStop == Is("stop") /\ Log[l].out = Lap(Log[l].s) /\ Stop(Log[l].s)
DoCopy == Is("copy") /\ Copy(Log[l].from, Log[l].to)
DoObs == /\ Is("obs") /\ Same
         /\ LET c == chr[Ev.s] k == Len(Incs(Ev.s))
            IN /\ Ev.running = c.running /\ Ev.elapsed = c.elapsed /\ Ev.count = k /\ Ev.incs = c.incs
               /\ k > 0 => /\ Ev.last = c.incs[k] /\ Ev.min = MinInc(Ev.s) /\ Ev.max = MaxInc(Ev.s)
                           \* mean, times the count, without the first increment
                           /\ Ev.mean = Sum(Centred(Ev.s))
                           /\ Ev.wide \/ Ev.var = VarTimes(Ev.s)
DoEnd == Is("end") /\ Same
Next == DoBegin \/ DoMake \/ DoAdvance \/ DoReset \/ DoStart \/ DoStop \/ DoCopy \/ DoObs \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
