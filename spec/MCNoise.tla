------------------------------ MODULE MCNoise ------------------------------
(* Design: an engine with a transition function, read a number of times which depends on the mean for Poisson
   draws. Noise which reseeds an engine from a seeder before each application depends on the seed, the position
   and the input only; noise which keeps drawing from one engine does not. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS E,        \* engine states are 0..E-1
          MaxOps, Naive
VARIABLES next,     \* engine transition function
          engine, seeder, hist, outs, other
vars == <<next, engine, seeder, hist, outs, other>>
States == 0..(E - 1)
Inputs == {0, 1, 2}
RECURSIVE Advance(_, _, _)
Advance(f, e, n) == IF n = 0 THEN e ELSE Advance(f, f[e], n - 1)
(* A Poisson draw of mean x consumes x + 1 numbers and returns the last *)
Init == /\ next \in [States -> States]
        /\ engine = [i \in 1..2 |-> 0] /\ seeder = [i \in 1..2 |-> 0]
        /\ hist = [i \in 1..2 |-> <<>>] /\ outs = [i \in 1..2 |-> <<>>] /\ other = 0
Apply(i, x) ==
   /\ Len(hist[i]) < MaxOps
   /\ hist' = [hist EXCEPT ![i] = Append(@, x)]
   /\ IF Naive
      THEN /\ engine' = [engine EXCEPT ![i] = Advance(next, @, x + 1)]
           /\ outs' = [outs EXCEPT ![i] = Append(@, Advance(next, engine[i], x + 1))]
           /\ UNCHANGED seeder
      ELSE /\ seeder' = [seeder EXCEPT ![i] = (@ + 1) % E]
           /\ outs' = [outs EXCEPT ![i] = Append(@, Advance(next, seeder[i], x + 1))]
           /\ UNCHANGED engine
   /\ UNCHANGED <<next, other>>
(* value generations in between use the engine only *)
Value(i) == other < 1 /\ other' = other + 1 /\ engine' = [engine EXCEPT ![i] = next[@]]
            /\ UNCHANGED <<next, seeder, hist, outs>>
Next == \E i \in 1..2 : Value(i) \/ \E x \in Inputs : Apply(i, x)
Spec == Init /\ [][Next]_vars
Stable == \A k \in 1..Len(hist[1]) : k <= Len(hist[2]) /\ hist[1][k] = hist[2][k] => outs[1][k] = outs[2][k]
=============================================================================
