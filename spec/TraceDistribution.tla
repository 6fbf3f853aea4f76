------------------------- MODULE TraceDistribution -------------------------
(* Values are in quarters. Several distributions live together; sources may change or die after the copy. *)
EXTENDS Distribution, TraceLog
VARIABLES src, dist
vars == <<src, dist, l>>
Slots == 0..3
Init == src = [s \in Slots |-> <<>>] /\ dist = [s \in Slots |-> <<>>] /\ l = 1
Same == UNCHANGED <<src, dist>>
DoSource == Is("source") /\ src' = [src EXCEPT ![Log[l].s] = Log[l].vals] /\ UNCHANGED dist
DoWrite == Is("write") /\ src' = [src EXCEPT ![Log[l].s] = [@ EXCEPT ![Log[l].i + 1] = Log[l].v]] /\ UNCHANGED dist
DoMake == Is("make") /\ dist' = [dist EXCEPT ![Log[l].d] = src[Log[l].s]] /\ UNCHANGED src
DoCopy == Is("copy") /\ dist' = [dist EXCEPT ![Log[l].d] = dist[Log[l].from]] /\ UNCHANGED src
V == dist[Ev.d]
(* The source is logged after each query *)
Query(name) == Is(name) /\ Same /\ Ev.src = src[Ev.s]
DoSize == Query("size") /\ Ev.out = Len(V)
DoMin == Query("min") /\ Ev.out = Least(V)
DoMax == Query("max") /\ Ev.out = Largest(V)
DoNth == Query("nth") /\ Ev.out = Nth(V, Ev.n)
DoSum == Query("sum") /\ Ev.out = Total(V)
(* logged times the number of values *)
DoMean == Query("mean") /\ Ev.out = Total(V)
DoMedian == Query("median") /\ Ev.out = MedianTwice(V)
DoQuantile == Query("quantile") /\ Ev.out = QuantileTimes(V, Ev.num, Ev.den)
DoMad == Query("mad") /\ Ev.out = MadFour(V)
(* logged times VarDen *)
DoVariance == Query("variance") /\ Ev.den = VarDen(V, Ev.unbiased) /\ Ev.out = VarNum(V)
DoHistogram == Query("histogram") /\ Ev.out = Counts(V, Ev.bins)
DoSort == Query("sort")
DoEnd == Is("end") /\ Same
Next == DoSource \/ DoWrite \/ DoMake \/ DoCopy \/ DoSize \/ DoMin \/ DoMax \/ DoNth \/ DoSum \/ DoMean \/ DoMedian
        \/ DoQuantile \/ DoMad \/ DoVariance \/ DoHistogram \/ DoSort \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
