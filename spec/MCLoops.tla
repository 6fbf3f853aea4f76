------------------------------- MODULE MCLoops -------------------------------
(* Loops in any order, one visit at a time: whatever the permutation, a loop which does not look at the rank
   ends with the sum, and every pixel was visited once. *)
EXTENDS Loops, TLC
CONSTANTS MaxLen, MaxDim, MaxSize
VARIABLES s, c, done, way
vars == <<s, c, done, way>>
SomeShapes == UNION {[1..d -> 1..MaxLen] : d \in 1..MaxDim}
A(i) == 3 * i + 1
Init == /\ s \in {x \in SomeShapes : ShapeSize(x) <= MaxSize} /\ way \in {"x-y-z", "z-y-x", "any"}
        /\ c = [i \in 1..ShapeSize(s) |-> -i] /\ done = {}
Visit(i) == /\ i \notin done /\ done' = done \cup {i} /\ c' = [c EXCEPT ![i] = @ + A(i)] /\ UNCHANGED <<s, way>>
Next == Cardinality(done) < ShapeSize(s) /\ \E i \in 1..ShapeSize(s) :
          /\ way # "any" => i = Order(way, s)[Cardinality(done) + 1] + 1
          /\ Visit(i)
Spec == Init /\ [][Next]_vars
Once == \A i \in DOMAIN c : c[i] = -i + (IF i \in done THEN A(i) ELSE 0)
AllSame == Cardinality(done) = ShapeSize(s) => c = Summed([i \in 1..ShapeSize(s) |-> -i], [i \in 1..ShapeSize(s) |-> A(i)])
Bijections == \A w \in {"x-y-z", "z-y-x"} : /\ Len(Order(w, s)) = ShapeSize(s)
                                              /\ {Order(w, s)[k] : k \in 1..ShapeSize(s)} = 0..(ShapeSize(s) - 1)
(* the position before is smaller in lexicographic order *)
Lexicographic == LET o == Outermost(s) IN \A k \in 1..(Len(o) - 1) :
   LET p == PosOf(s, o[k])
       q == PosOf(s, o[k + 1]) IN \E j \in 1..Len(s) : p[j] < q[j] /\ \A h \in 1..(j - 1) : p[h] = q[h]
NotStuck == Cardinality(done) < ShapeSize(s) => ENABLED Next
=============================================================================
