--------------------------- MODULE MCContainers ---------------------------
EXTENDS Containers
CONSTANTS Depth
VARIABLE n
Init == objs = <<>> /\ n = 0
Shps == {<<0>>, <<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<8>>}
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E i \in 1..3, s \in Shps, len \in {0, 1, 2, 4, 8} : Construct(i, s, [k \in 1..len |-> k])
           \/ \E i \in DOMAIN objs, k \in 1..2, x \in {1, 2} : Put(i, k, x)
Spec == Init /\ [][Next]_<<objs, n>>
(* C08: no inconsistent object *)
AllConsistent == \A i \in DOMAIN objs : Consistent(objs[i].shape, objs[i].vals)
(* C26: equality is an equivalence, finer than the text, compatible with emptiness *)
Equivalence == \A a \in DOMAIN objs, b \in DOMAIN objs, c \in DOMAIN objs :
   /\ Equal(a, a) /\ (Equal(a, b) = Equal(b, a)) /\ ((Equal(a, b) /\ Equal(b, c)) => Equal(a, c))
   /\ (Equal(a, b) => (Text(objs[a].vals) = Text(objs[b].vals) /\ IsEmpty(a) = IsEmpty(b)))
TextShort == \A a \in DOMAIN objs, b \in DOMAIN objs :
   (Len(objs[a].vals) <= 7 /\ Text(objs[a].vals) = Text(objs[b].vals)) => objs[a].vals = objs[b].vals
===========================================================================
