------------------------------- MODULE Noise -------------------------------
(* Random generators. Values are not defined by the specification, their functional dependencies are:
   `memo` records what each key gave the first time; the same key must always give the same.
   A generator is described by what it was built from and its history of calls since then:
   <<>> entries are value generations, <<x>> entries are noise applications to x. *)
EXTENDS Shapes, TLC

VARIABLES gens,  \* slot -> [id, hist, applied] : id = <<kind, type, parameters, seed>>
          memo   \* key -> value
nvars == <<gens, memo>>

Additive(kind) == kind \in {"uniform", "gaussian"}
NoGen == [id |-> <<>>, hist |-> <<>>, applied |-> 0]

Build(g, id) == gens' = [gens EXCEPT ![g] = [id |-> id, hist |-> <<>>, applied |-> 0]] /\ UNCHANGED memo
Copy(g, h) == gens' = [gens EXCEPT ![h] = gens[g]] /\ UNCHANGED memo

(* What the value returned by generator r depends on, when called with x (<<>> or <<input>>) *)
Key(r, x) ==
   LET kind == r.id[1] type == r.id[2] params == r.id[3] seed == r.id[4]
   IN IF kind = "stable" /\ x # <<>> THEN <<"stable", type, seed, r.applied, x>>
      \* values of stable noise are those of Poisson noise; noise applications do not consume them
      ELSE IF kind = "stable" THEN <<"poisson", type, params, seed,
                                     SelectSeq(r.hist, LAMBDA e : e = <<>>), x>>
      ELSE <<kind, type, params, seed, r.hist, x>>
(* Additive noises draw the same whatever their input *)
NoiseKey(r) == <<r.id, Len(r.hist)>>

Consistent(m, k, v) == k \in DOMAIN m => m[k] = v
Record(m, k, v) == IF k \in DOMAIN m THEN m ELSE m @@ (k :> v)
Called(r, x) == [r EXCEPT !.hist = Append(@, x), !.applied = IF x = <<>> THEN @ ELSE @ + 1]

(* One call: `out` identifies the value exactly; `noise` is output minus input, in fixed point, for additive kinds *)
Draw(g, x, out, noise, eq(_, _)) ==
   LET r == gens[g]
       k == Key(r, x)
       n == NoiseKey(r)
   IN /\ Consistent(memo, k, out)
      /\ Additive(r.id[1]) => (n \in DOMAIN memo => eq(memo[n], noise))
      /\ memo' = IF Additive(r.id[1]) THEN Record(Record(memo, k, out), n, noise) ELSE Record(memo, k, out)
      /\ gens' = [gens EXCEPT ![g] = Called(r, x)]
=============================================================================
