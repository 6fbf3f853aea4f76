----------------------------- MODULE Containers -----------------------------
(* Construction, equality, emptiness and text of containers (C08, C26).
   A container is its shape and the sequence of its elements in storage order; sequences have the shape <<size>>. *)
EXTENDS Shapes, TLC

VARIABLES objs \* name -> [shape, vals]

PutC(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Obj(s, v) == [shape |-> s, vals |-> v]
Consistent(s, v) == Len(v) = ShapeSize(s)
(* cap: fixed capacity of the holder, or -1 *)
Accepts(s, v, cap) == Consistent(s, v) /\ (cap = -1 \/ cap = Len(v))
Construct(id, s, v) == Consistent(s, v) /\ objs' = PutC(objs, id, Obj(s, v))
Put(id, k, x) == k \in DOMAIN objs[id].vals /\ objs' = [objs EXCEPT ![id].vals[k] = x]

Equal(a, b) == objs[a].shape = objs[b].shape /\ objs[a].vals = objs[b].vals
IsEmpty(a) == Len(objs[a].vals) = 0

(* The same with special values: 7 is negative zero, which equals 0; 8 is not a number, which equals nothing, not even itself *)
MinusZero == 7
NotNumber == 8
OddSame(x, y) == x # NotNumber /\ y # NotNumber /\ (x = y \/ {x, y} \subseteq {0, MinusZero})
OddEqual(a, b) == /\ objs[a].shape = objs[b].shape /\ Len(objs[a].vals) = Len(objs[b].vals)
                  /\ \A k \in DOMAIN objs[a].vals : OddSame(objs[a].vals[k], objs[b].vals[k])

RECURSIVE Join(_, _)
Join(v, sep) == IF Len(v) = 0 THEN "" ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o sep \o Join(Tail(v), sep)
(* w: the text of each element *)
Written(v) == LET n == Len(v) IN
           IF n <= 7 THEN "[" \o Join(v, ", ") \o "]"
           ELSE "[" \o Join(SubSeq(v, 1, 3), ", ") \o " ... " \o Join(SubSeq(v, n - 2, n), ", ") \o "]"
Text(v) == Written([k \in DOMAIN v |-> ToString(v[k])])
=============================================================================
