--------------------------- MODULE TraceSampling ---------------------------
EXTENDS Sampling, TraceLog
vars == <<mem, samplers, l>>
Init == mem = <<>> /\ samplers = <<>> /\ l = 1
Same == UNCHANGED <<mem, samplers>>
DoAxis == Is("axis") /\ Same /\ Ev.size = Count(Ev.front, Ev.back, Ev.step)
          /\ \A v \in {Ev.seen, Ev.post, Ev.vec} : v = AxisSeq(Ev.front, Ev.back, Ev.step)
(* walk: iterator moved by += n, -= n, ++ and ++(int) *)
DoWalk == Is("walk") /\ Same
          /\ \A k \in 1..Len(Ev.at) : Ev.vals[k] = Ev.front + Ev.at[k] * Ev.step
          /\ Ev.atEnd = [j \in 1..Len(Ev.at) |-> IF Ev.at[j] = Count(Ev.front, Ev.back, Ev.step) THEN 1 ELSE 0]
DoGrid == Is("grid") /\ Same
          /\ Ev.shape = [k \in 1..Len(Ev.front) |-> Count(Ev.front[k], Ev.back[k], Ev.step[k])]
          /\ \A k \in 1..Len(Ev.front) : Ev.axes[k] = AxisSeq(Ev.front[k], Ev.back[k], Ev.step[k])
DoSegment == Is("segment") /\ Same /\ Ev.back = Ev.front + Ev.n - 1 /\ Ev.size = Ev.n /\ Ev.f = Ev.front
DoBegin == Is("begin") /\ mem' = Ev.vals /\ samplers' = <<>>
Desc(r) == <<r.size, r.front, r.back, r.step, r.stride>>
DoMake == /\ Is("make")
          /\ Make(Ev.id, [base |-> Ev.base, size |-> Ev.size, front |-> Ev.front,
                          back |-> IF Ev.whole THEN Ev.size - 1 ELSE Ev.back, step |-> Ev.step, stride |-> Ev.stride])
          /\ Ev.got = Desc(samplers'[Ev.id]) /\ Ev.sampling = Desc(samplers'[Ev.id])
DoWide == /\ Is("wide") /\ Same
          /\ LET n == Count(Ev.front, Ev.back, Ev.step)
                 last == Ev.front + (n - 1) * Ev.step IN
             Ev.regular /\ Ev.count = n /\ Ev.visited = n /\ Ev.axis = n /\ Ev.axisLast = last /\ Ev.last = last * Ev.stride
DoRead == /\ Is("read") /\ Same
          /\ Ev.count = Len(CellsS(Ev.id))
          /\ Ev.vals = ValuesS(Ev.id)
          /\ Ev.cells = CellsS(Ev.id)
          /\ Ev.base = samplers[Ev.id].base
DoWrite == Is("write") /\ WriteS(Ev.id, Ev.k, Ev.v) /\ Ev.mem = mem'
DoShift == Is("shift") /\ Shift(Ev.id, Ev.n) /\ Ev.base = samplers'[Ev.id].base /\ Ev.ret = samplers[Ev.id].base + (IF Ev.post THEN 0 ELSE Ev.n)
DoEnd == Is("end") /\ Same
Next == DoAxis \/ DoWalk \/ DoGrid \/ DoSegment \/ DoBegin \/ DoMake \/ DoWide \/ DoRead \/ DoWrite \/ DoShift \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
