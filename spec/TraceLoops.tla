------------------------------ MODULE TraceLoops ------------------------------
(* Loops of the implementation, in the order in which they visit the pixels, against Loops. *)
EXTENDS Loops, TraceLog
VARIABLES shape, a, b, c, laps, spent
vars == <<shape, a, b, c, laps, spent, l>>
Init == shape = <<>> /\ a = <<>> /\ b = <<>> /\ c = <<>> /\ laps = 0 /\ spent = 0 /\ l = 1
DoRasters == /\ Is("rasters") /\ shape' = Log[l].shape /\ c' = Log[l].c /\ a' = Log[l].a /\ UNCHANGED <<b, laps, spent>>
             /\ Len(c') = ShapeSize(shape') /\ Len(a') = Len(c')
DoLoop == /\ Is("loop") /\ UNCHANGED <<shape, a, b, laps, spent>>
          /\ LET o == Order(Log[l].way, shape) IN
               /\ Log[l].order = IF Log[l].ranked THEN o ELSE <<>>
               /\ c' = IF Log[l].ranked THEN Looped(c, a, o) ELSE Summed(c, a)
          /\ Log[l].c = c' /\ Log[l].a = a
Seen == /\ a' = Log[l].a /\ b' = Log[l].b /\ c' = Log[l].c
Small(q, x) == \A i \in DOMAIN q : -x <= q[i] /\ q[i] <= x
DoBench == /\ Is("bench") /\ Seen /\ shape' = <<Log[l].side, Log[l].side, Log[l].side>> /\ Log[l].shape = shape'
           /\ Len(a') = ShapeSize(shape') /\ Len(b') = Len(a') /\ Len(c') = Len(a') /\ Small(a', 50)
           /\ Log[l].count = 0 /\ laps' = 0 /\ Log[l].elapsed = 0 /\ spent' = 0 /\ ~Log[l].running
DoContents == Is("contents") /\ Seen /\ UNCHANGED <<shape, laps, spent>>
(* whatever the way: the sum of characters; only the clock readings of a loop last, and time goes on between the loops *)
DoBenchLoop == /\ Is("bench-loop") /\ UNCHANGED <<shape, a, b>> /\ Log[l].a = a /\ Log[l].b = b
               /\ c' = [i \in DOMAIN a |-> Char(a[i] + b[i])] /\ Log[l].c = c'
               /\ laps' = laps + 1 /\ Log[l].count = laps' /\ ~Log[l].running
               /\ Log[l].duration >= Log[l].length /\ (Log[l].length = 0 => Log[l].duration = 0)
               /\ spent' = spent + Log[l].duration /\ Log[l].elapsed = spent'
DoEnd == Is("end") /\ UNCHANGED <<shape, a, b, c, laps, spent>>
Next == DoRasters \/ DoLoop \/ DoBench \/ DoContents \/ DoBenchLoop \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
