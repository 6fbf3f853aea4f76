------------------------------ MODULE MCCustom ------------------------------
(* Pixels which own memory: histories of containers of such pixels. Every object is made once and unmade once,
   objects alive are exactly those of the containers, and containers do not share pixels.
   Channels: converting from one layout to another and back gives the image back; operations commute with conversions. *)
EXTENDS Custom, FiniteSets
CONSTANTS Slots, Sizes, MaxOps, Names
VARIABLES text,   \* container -> pixels
          ids,    \* container -> objects which hold them
          alive, made, ops
vars == <<text, ids, alive, made, ops>>
Init == text = [s \in Slots |-> <<>>] /\ ids = [s \in Slots |-> <<>>] /\ alive = {} /\ made = 0 /\ ops = 0
SetOf(q) == {q[i] : i \in DOMAIN q}
New(s, t) ==   \* new objects in place of those of s
  LET n == Len(t)
      fresh == [i \in 1..n |-> made + i] IN
  /\ text' = [text EXCEPT ![s] = t] /\ ids' = [ids EXCEPT ![s] = fresh]
  /\ alive' = (alive \ SetOf(ids[s])) \cup SetOf(fresh) /\ made' = made + n
Assign(s, t) ==  \* same objects, new values
  text' = [text EXCEPT ![s] = t] /\ UNCHANGED <<ids, alive, made>>
Make(s, n, x) == New(s, [i \in 1..n |-> x])
Copy(s, r) == New(r, text[s])
Move(s, r) == /\ text' = [text EXCEPT ![r] = text[s], ![s] = <<>>] /\ ids' = [ids EXCEPT ![r] = ids[s], ![s] = <<>>]
              /\ alive' = alive \ SetOf(ids[r]) /\ UNCHANGED made
Add(s, r) == Len(text[s]) = Len(text[r]) /\ Assign(s, Each("+", text[s], text[r]))
Apply(s) == text[s] # <<>> /\ Assign(s, Generated("f", <<text[s]>>, Len(text[s])))
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E s \in Slots, n \in Sizes, x \in Names : Make(s, n, x)
           \/ \E s, r \in Slots : s # r /\ (Copy(s, r) \/ Move(s, r))
           \/ \E s, r \in Slots : Add(s, r)
           \/ \E s \in Slots : Apply(s)
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN Len(text[s]) + Total(S \ {s})
Lifetimes == /\ Cardinality(alive) = Total(Slots)
             /\ alive = UNION {SetOf(ids[s]) : s \in Slots}
             /\ \A s, r \in Slots : s # r => SetOf(ids[s]) \cap SetOf(ids[r]) = {}
(* layouts *)
Images == [1..2 -> [1..3 -> 0..1]] \cup [1..3 -> [1..2 -> 0..1]]
Layouts == \A m \in Images : LET n == Channels(m) IN
             /\ OfInterleaved(Interleaved(m), n) = m /\ OfPlanar(Planar(m), n) = m
             /\ \A c \in 1..n : OfPlanar(Planar(Scaled(m, c, 2)), n) = OfInterleaved(Interleaved(Scaled(m, c, 2)), n)
             /\ Weighted(m, [c \in 1..n |-> 1]) = Weighted(Rotated(m), [c \in 1..n |-> 1])
ASSUME Layouts
ASSUME \A x \in -300..300 : /\ Char(x) \in -128..127 /\ (x - Char(x)) % 256 = 0
Extremes == \A q \in [1..4 -> 0..2] : /\ \A j \in 1..4 : q[FirstLeast(q)] <= q[j] /\ q[FirstLargest(q)] >= q[j]
                                      /\ FirstLeast(q) <= 4 /\ (\A i \in 1..4 : q[i] = q[1]) => FirstLeast(q) = 1 /\ FirstLargest(q) = 1
ASSUME Extremes
=============================================================================
