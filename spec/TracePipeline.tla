--------------------------- MODULE TracePipeline ---------------------------
EXTENDS Pipeline, TraceLog
vars == <<dag, pipes, stamp, l>>
Slots == 0..2
Init == dag = 0 /\ pipes = [p \in Slots |-> Fresh] /\ stamp = 0 /\ l = 1
Same == UNCHANGED pvars
DoBegin == Is("begin") /\ dag' = Log[l].dag /\ pipes' = [p \in Slots |-> Fresh] /\ stamp' = 0
DoGet == /\ Is("get") /\ Log[l].fail = -1 /\ ~Log[l].threw
         /\ GetOk(Log[l].p, Log[l].k, Log[l].evals, Log[l].cost)
         /\ Log[l].out = pipes'[Log[l].p].val[Log[l].k]
(* A step asked to fail which is not needed changes nothing *)
DoGetAnyway == /\ Is("get") /\ Log[l].fail # -1 /\ Log[l].fail \notin Needed(Log[l].p, Log[l].k) /\ ~Log[l].threw
               /\ GetOk(Log[l].p, Log[l].k, Log[l].evals, Log[l].cost)
               /\ Log[l].out = pipes'[Log[l].p].val[Log[l].k]
DoGetFails == /\ Is("get") /\ Log[l].fail # -1 /\ Log[l].threw
              /\ GetFails(Log[l].p, Log[l].k, Log[l].evals, Log[l].fail, Log[l].cost)
DoReset == Is("reset") /\ Reset(Log[l].p)
DoCopy == Is("copy") /\ CopyTo(Log[l].p, Log[l].q)
DoObs == /\ Is("obs") /\ Same
         /\ \A k \in Steps : /\ Ev.evaluated[k + 1] = (IF k \in pipes[Ev.p].done THEN 1 ELSE 0)
                             /\ Ev.ms[k + 1] = pipes[Ev.p].ms[k]
         /\ Ev.total = TotalMs(Ev.p)
DoEnd == Is("end") /\ Same
Next == DoBegin \/ DoGet \/ DoGetAnyway \/ DoGetFails \/ DoReset \/ DoCopy \/ DoObs \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
