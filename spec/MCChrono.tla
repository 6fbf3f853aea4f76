------------------------------ MODULE MCChrono ------------------------------
EXTENDS Chrono
CONSTANTS Slots, Depth
VARIABLES n, off, prev   \* offsets given last, elapsed times before the last step
vars == <<now, chr, n, off, prev>>
Init == now = 5 /\ chr = [s \in Slots |-> New(2, 0)] /\ n = 0 /\ off = [s \in Slots |-> 0] /\ prev = [s \in Slots |-> 0]
Next == /\ n < Depth /\ n' = n + 1 /\ prev' = [s \in Slots |-> chr[s].elapsed]
        /\ \/ \E d \in {1, 2, 5} : Advance(d) /\ UNCHANGED off
           \/ \E s \in Slots : \/ Start(s) /\ UNCHANGED off
                               \/ Stop(s) /\ UNCHANGED off
                               \/ \E o \in {0, 7} : Reset(s, o) /\ off' = [off EXCEPT ![s] = o]
           \/ \E s, d \in Slots : s # d /\ Copy(s, d) /\ off' = [off EXCEPT ![d] = off[s]]
Spec == Init /\ [][Next]_vars
Accounting == \A s \in Slots : chr[s].elapsed = off[s] + Sum(chr[s].incs)
NoNegative == \A s \in Slots : \A i \in DOMAIN Incs(s) : Incs(s)[i] >= 0
Spread == \A s \in Slots : Incs(s) # <<>> => VarTimes(s) >= 0 /\ (VarTimes(s) = 0 <=> MinInc(s) = MaxInc(s))
(* Laps of one chronometer never overlap: their total fits in the time passed *)
Fits == \A s \in Slots : 2 * Sum(chr[s].incs) <= now - 5
Grows == [][\A s \in Slots : (off'[s] = off[s] /\ Len(chr'[s].incs) >= Len(chr[s].incs)) => chr'[s].elapsed >= chr[s].elapsed
              \/ \E d \in Slots : chr'[s] = chr[d]]_vars
=============================================================================
