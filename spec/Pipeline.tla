------------------------------ MODULE Pipeline ------------------------------
(* Lazy evaluation of a directed acyclic graph of steps, with failures, on several pipeline objects.
   Steps are 0..N-1, a step's prerequisites have smaller numbers. A step's value is the stamp of its
   evaluation plus the values of its prerequisites, so that any stale or missing evaluation shows. *)
EXTENDS Shapes, TLC

CONSTANT N
Steps == 0..(N - 1)
(* Graphs as bit masks over the pairs (j, k), j < k *)
Pair(j, k) == (k * (k - 1)) \div 2 + j
Bit(m, b) == (m \div (2 ^ b)) % 2 = 1
Pre(m, k) == {j \in 0..(k - 1) : Bit(m, Pair(j, k))}
RECURSIVE Closure(_, _)
Closure(m, k) == {k} \cup UNION {Closure(m, j) : j \in Pre(m, k)}

VARIABLES dag,    \* mask
          pipes,  \* pipeline -> what it remembers: done steps, values, own evaluation times
          stamp   \* evaluations so far, of all pipelines
pvars == <<dag, pipes, stamp>>
Fresh == [done |-> {}, val |-> [k \in Steps |-> 0], ms |-> [k \in Steps |-> -1]]

Needed(p, k) == Closure(dag, k) \ pipes[p].done
Seen(s) == {s[i] : i \in 1..Len(s)}
(* Evaluation orders allowed when nothing fails, and when step f fails (it comes last) *)
Legal(done, s) == /\ Cardinality(Seen(s)) = Len(s)
                  /\ \A i \in 1..Len(s) : s[i] \notin done /\ Pre(dag, s[i]) \subseteq done \cup {s[j] : j \in 1..(i - 1)}
Whole(p, k, s) == Seen(s) = Needed(p, k) /\ Legal(pipes[p].done, s)
Broken(p, k, s, f) == Len(s) > 0 /\ s[Len(s)] = f /\ Seen(s) \subseteq Needed(p, k) /\ Legal(pipes[p].done, s)

SumVals(v, ks) == FoldFunctionOnSet(+, 0, v, ks)
RECURSIVE Evaluate(_, _, _, _)
(* s: steps evaluated with success, in order; cost: time each takes; t: stamp before *)
Evaluate(r, s, cost, t) ==
   IF s = <<>> THEN r
   ELSE LET k == s[1]
            v == t + 1 + SumVals(r.val, Pre(dag, k))
        IN Evaluate([done |-> r.done \cup {k}, val |-> [r.val EXCEPT ![k] = v], ms |-> [r.ms EXCEPT ![k] = cost[k + 1]]],
                    Tail(s), cost, t + 1)

GetOk(p, k, s, cost) == /\ Whole(p, k, s)
                        /\ pipes' = [pipes EXCEPT ![p] = Evaluate(@, s, cost, stamp)]
                        /\ stamp' = stamp + Len(s) /\ UNCHANGED dag
(* A failing step is not evaluated; the steps before it are *)
GetFails(p, k, s, f, cost) ==
   /\ f \in Needed(p, k) /\ Broken(p, k, s, f)
   /\ pipes' = [pipes EXCEPT ![p] = Evaluate(@, SubSeq(s, 1, Len(s) - 1), cost, stamp)]
   /\ stamp' = stamp + Len(s) /\ UNCHANGED dag
Reset(p) == pipes' = [pipes EXCEPT ![p] = [@ EXCEPT !.done = {}, !.ms = [k \in Steps |-> -1]]] /\ UNCHANGED <<dag, stamp>>
CopyTo(p, q) == pipes' = [pipes EXCEPT ![q] = pipes[p]] /\ UNCHANGED <<dag, stamp>>
TotalMs(p) == FoldFunctionOnSet(+, 0, pipes[p].ms, pipes[p].done)
=============================================================================
