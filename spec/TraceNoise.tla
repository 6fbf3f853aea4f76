---------------------------- MODULE TraceNoise ----------------------------
EXTENDS Noise, TraceLog
VARIABLE seqs   \* sequences of draws of recorded seeds
vars == <<gens, memo, seqs, l>>
Slots == 0..5
Init == gens = [s \in Slots |-> NoGen] /\ memo = <<>> /\ seqs = {} /\ l = 1
Same == UNCHANGED nvars
DoReset == Is("reset") /\ memo' = <<>> /\ gens' = [s \in Slots |-> NoGen] /\ seqs' = {}
DoBuild == Is("build") /\ Build(Log[l].g, <<Log[l].kind, Log[l].type, Log[l].params, Log[l].seed>>) /\ UNCHANGED seqs
DoCopy == Is("copy") /\ Copy(Log[l].from, Log[l].to) /\ UNCHANGED seqs
(* Values are given exactly as text, and in fixed point for each of their parts (real, imaginary) *)
Close(a, b) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 1
Noise(e) == IF e.x = <<>> THEN e.v ELSE [i \in DOMAIN e.v |-> e.v[i] - e.scale * e.x[i]]
(* Support; parameters are in 1/1000 *)
InSupport(r, e) ==
   LET kind == r.id[1]
       ps == r.id[3]
   IN CASE kind = "uniform" -> \A i \in DOMAIN e.v :
              Noise(e)[i] * 1000 >= (ps[1][i] * e.scale) - 1000 /\ Noise(e)[i] * 1000 <= (ps[2][i] * e.scale) + 1000
        [] kind = "poisson" \/ kind = "stable" -> /\ e.v[1] >= 0 /\ e.v[1] % e.scale = 0
                                                  /\ (e.x = <<0>>) => e.v[1] = 0
        [] kind = "impulse" ->   \* params: values, probabilities in 1/1000; the default input is zero
              \/ \E i \in DOMAIN ps[1] : ps[2][i] > 0 /\ e.v[1] = ps[1][i] * e.scale
              \/ Sum(ps[2]) < 1000 /\ e.v[1] = (IF e.x = <<>> THEN 0 ELSE e.x[1]) * e.scale
        [] OTHER -> TRUE
DoDraw == /\ Is("draw") /\ Draw(Log[l].g, Log[l].x, Log[l].out, Noise(Log[l]), Close)
          /\ InSupport(gens[Log[l].g], Log[l]) /\ UNCHANGED seqs
(* Different seeds, different sequences *)
DoSequence == /\ Is("sequence") /\ Same
              /\ \A q \in seqs : q[1] = <<Ev.kind, Ev.type, Ev.params>> /\ q[2] # Ev.seed => q[3] # Ev.outs
              /\ \A q \in seqs : q[1] = <<Ev.kind, Ev.type, Ev.params>> /\ q[2] = Ev.seed => q[3] = Ev.outs
              /\ seqs' = seqs \cup {<<<<Ev.kind, Ev.type, Ev.params>>, Ev.seed, Ev.outs>>}
(* Frequencies of n draws: within 7 standard deviations of n p, p in eighths *)
DoFrequency == /\ Is("frequency") /\ Same /\ UNCHANGED seqs
               /\ LET d == 8 * Ev.count - Ev.n * Ev.p IN d * d <= 49 * Ev.n * Ev.p * (8 - Ev.p)
(* Rare events among many draws: per million, and within 7 standard deviations *)
PerMillion(law, what) == CASE law = "normal" -> [x \in {"beyond 1", "above 2", "below -2", "beyond 3"} |->
                                   IF x = "beyond 1" THEN 317311 ELSE IF x = "beyond 3" THEN 2700 ELSE 22750][what]
                           [] law = "uniform" -> [x \in {"first tenth", "last hundredth", "first thousandth", "two in first tenth"} |->
                                   IF x = "first tenth" THEN 100000 ELSE IF x = "first thousandth" THEN 1000 ELSE 10000][what]
                           [] law = "poisson 2" -> [x \in {"none", "over 4", "over 7"} |->
                                   IF x = "none" THEN 135335 ELSE IF x = "over 4" THEN 52653 ELSE 1097][what]
                           [] law = "impulse" -> [x \in {"rarely kept", "rarely hit"} |-> 100][what]
Root(m) == CHOOSE x \in 0..1000 : x * x <= m /\ m < (x + 1) * (x + 1)
DoTail == /\ Is("tail") /\ Same /\ UNCHANGED seqs
          /\ LET m == ((Ev.n \div 1000) * PerMillion(Ev.law, Ev.what)) \div 1000
             IN Abs(Ev.count - m) <= 7 * (Root(m) + 1)
(* Means and deviations of many draws: logged in 1/1000 of what is expected to be 0 and 1 *)
DoMoments == Is("moments") /\ Same /\ UNCHANGED seqs /\ Abs(Ev.mean) <= 120 /\ Abs(Ev.dev - 1000) <= 150
(* Random containers: shape, and range in 1/1000 of the half max *)
DoRandom == Is("random") /\ Same /\ UNCHANGED seqs /\ Ev.oshape = Ev.shape
DoRange == Is("range") /\ Same /\ UNCHANGED seqs /\ Ev.lo <= Ev.min /\ Ev.max <= Ev.hi
(* Without a seed, sequences differ from one time to another; with one, they are the same however long *)
DoUnseeded == Is("unseeded") /\ Same /\ UNCHANGED seqs /\ Ev.one # Ev.two /\ Ev.two # Ev.three /\ Ev.one # Ev.three
DoTwins == Is("twins") /\ Same /\ UNCHANGED seqs /\ Ev.same = Ev.n
DoEnd == Is("end") /\ Same /\ UNCHANGED seqs
Next == DoReset \/ DoBuild \/ DoCopy \/ DoDraw \/ DoSequence \/ DoFrequency \/ DoTail \/ DoMoments \/ DoRandom \/ DoRange \/ DoUnseeded \/ DoTwins \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
