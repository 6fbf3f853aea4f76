------------------------------- MODULE Chrono -------------------------------
(* Chronometers over a shared clock. Times are in units of the clock; a chronometer counts whole units of U ticks. *)
EXTENDS Shapes

VARIABLES now,    \* ticks
          chr     \* slot -> [u, running, tic, incs, elapsed]
cvars == <<now, chr>>
New(u, off) == [u |-> u, running |-> FALSE, tic |-> 0, incs |-> <<>>, elapsed |-> off]

Advance(d) == now' = now + d /\ UNCHANGED chr
Make(s, u, off) == chr' = [chr EXCEPT ![s] = New(u, off)] /\ UNCHANGED now
Reset(s, off) == chr' = [chr EXCEPT ![s] = New(@.u, off)] /\ UNCHANGED now
(* Starting again forgets the running lap *)
Start(s) == chr' = [chr EXCEPT ![s] = [@ EXCEPT !.running = TRUE, !.tic = now]] /\ UNCHANGED now
Lap(s) == (now - chr[s].tic) \div chr[s].u
Stop(s) == /\ chr[s].running
           /\ chr' = [chr EXCEPT ![s] = [@ EXCEPT !.running = FALSE, !.incs = Append(@, Lap(s)), !.elapsed = @ + Lap(s)]]
           /\ UNCHANGED now
Copy(s, d) == chr' = [chr EXCEPT ![d] = chr[s]] /\ UNCHANGED now

Incs(s) == chr[s].incs
MinInc(s) == CHOOSE x \in {Incs(s)[i] : i \in DOMAIN Incs(s)} : \A i \in DOMAIN Incs(s) : x <= Incs(s)[i]
MaxInc(s) == CHOOSE x \in {Incs(s)[i] : i \in DOMAIN Incs(s)} : \A i \in DOMAIN Incs(s) : x >= Incs(s)[i]
(* The deviation does not depend on an offset common to all increments: n^2 times the variance *)
Centred(s) == [i \in DOMAIN Incs(s) |-> Incs(s)[i] - Incs(s)[1]]
VarTimes(s) == LET c == Centred(s)
                   n == Len(c)
               IN n * SumTo([i \in 1..n |-> c[i] * c[i]], n) - SumTo(c, n) * SumTo(c, n)
=============================================================================
