----------------------------- MODULE MCPipeline -----------------------------
(* Every graph in Masks and every history of Depth operations; and generator of scripts. *)
EXTENDS Pipeline
CONSTANTS Pipes, Masks, Depth, Gen
VARIABLES hist, n, runs   \* runs: successful evaluations of each step since the last reset
AllMasks == 0..63
SomeMasks == {5, 11, 23, 30, 38, 59, 63}
(* Four steps: all graphs; five: a sample. The driver compiles these. *)
Compiled == 0..63 \cup {93, 117, 179, 224, 319, 325, 431, 444, 540, 606, 701, 728, 731, 771, 821, 823, 858, 878, 924, 925, 986, 1008, 1023}
vars == <<dag, pipes, stamp, hist, n, runs>>
S(x) == ToString(x)
Cost == [k \in 1..N |-> k]
Init == /\ dag \in Masks /\ pipes = [p \in Pipes |-> Fresh] /\ stamp = 0
        /\ hist = "dag " \o S(dag) /\ n = 0 /\ runs = [p \in Pipes |-> [k \in Steps |-> 0]]
H(x) == n < Depth /\ n' = n + 1 /\ hist' = IF Gen THEN hist \o ";" \o x ELSE ""
(* Depth-first order, as recursion over prerequisites in increasing order gives *)
RECURSIVE Dfs(_, _), DfsAll(_, _, _)
Dfs(k, acc) == LET a == DfsAll(Pre(dag, k), 0, acc) IN IF k \in Seen(a) \/ k \in Seen(acc) THEN a ELSE Append(a, k)
DfsAll(ks, j, acc) == IF j = N THEN acc ELSE DfsAll(ks, j + 1, IF j \in ks THEN Dfs(j, acc) ELSE acc)
Order(p, k) == SelectSeq(Dfs(k, <<>>), LAMBDA x : x \notin pipes[p].done)
UpTo(s, f) == SubSeq(s, 1, CHOOSE i \in 1..Len(s) : s[i] = f)
Count(p, s) == [runs EXCEPT ![p] = [k \in Steps |-> runs[p][k] + Cardinality({i \in 1..Len(s) : s[i] = k})]]
Get(p, k) == H("get " \o S(p) \o " " \o S(k) \o " -1") /\ GetOk(p, k, Order(p, k), Cost) /\ runs' = Count(p, Order(p, k))
Fail(p, k, f) == LET s == UpTo(Order(p, k), f) IN
   /\ f \in Needed(p, k) /\ H("get " \o S(p) \o " " \o S(k) \o " " \o S(f)) /\ GetFails(p, k, s, f, Cost)
   /\ runs' = Count(p, SubSeq(s, 1, Len(s) - 1))
Next == \/ \E p \in Pipes, k \in Steps : Get(p, k)
        \/ \E p \in Pipes, k, f \in Steps : Fail(p, k, f)
        \/ \E p \in Pipes : /\ H("reset " \o S(p)) /\ Reset(p) /\ runs' = [runs EXCEPT ![p] = [k \in Steps |-> 0]]
        \/ \E p, q \in Pipes : p # q /\ H("copy " \o S(p) \o " " \o S(q)) /\ CopyTo(p, q) /\ runs' = [runs EXCEPT ![q] = runs[p]]
Spec == Init /\ [][Next]_vars
Emit == (Gen /\ n = Depth) => PrintT("SCRIPT " \o hist)
(* The done steps are closed under prerequisites, each ran once since the last reset and has a time *)
Closed == \A p \in Pipes : \A k \in pipes[p].done : Closure(dag, k) \subseteq pipes[p].done
Once == \A p \in Pipes : \A k \in Steps : runs[p][k] = (IF k \in pipes[p].done THEN 1 ELSE 0)
Timed == \A p \in Pipes : \A k \in Steps : (pipes[p].ms[k] >= 0) <=> k \in pipes[p].done
(* Values are those of one consistent evaluation: larger than all that they depend on *)
Coherent == \A p \in Pipes : \A k \in pipes[p].done : \A j \in Pre(dag, k) : pipes[p].val[k] > pipes[p].val[j]
(* Depth-first recursion is one of the legal orders, whatever was evaluated before *)
DfsLegal == \A p \in Pipes : \A k \in Steps : Whole(p, k, Order(p, k))
=============================================================================
