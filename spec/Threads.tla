------------------------------ MODULE Threads ------------------------------
(* Concurrent use of the library (C27): threads which work on distinct objects, or only read common ones.
   Each operation has two steps, so that operations of different threads interleave: it reads its operands into
   some scratch memory, then writes its result from there. Where the scratch memory and the planner's lock are
   decides whether the threads see each other. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thr,      \* threads
          MaxOps,   \* operations per thread
          Private,  \* each operation has its own scratch memory
          Locked    \* the planner is used under a lock

VARIABLES common,   \* object which every thread reads
          cells,    \* common object of which thread t writes cell t
          own,      \* objects of each thread
          scratch,  \* thread -> what it is about to write
          pc,       \* "idle", "compute", "plan"
          ops,      \* history of each thread: what it asked for
          inside,   \* threads inside the planner
          waiting   \* threads which wait for it
tvars == <<common, cells, own, scratch, pc, ops, inside, waiting>>

Args == 1..2
(* any function of the operands will do *)
F(c, o, a) == (3 * c + 2 * o + a) % 7
Slot(t) == IF Private THEN t ELSE CHOOSE u \in Thr : TRUE

Init == /\ common = 2 /\ cells = [t \in Thr |-> 0] /\ own = [t \in Thr |-> 0] /\ scratch = [t \in Thr |-> 0]
        /\ pc = [t \in Thr |-> "idle"] /\ ops = [t \in Thr |-> <<>>] /\ inside = {} /\ waiting = {}

Begin(t, a) == /\ pc[t] = "idle" /\ Len(ops[t]) < MaxOps
               /\ scratch' = [scratch EXCEPT ![Slot(t)] = F(common, own[t], a)]
               /\ pc' = [pc EXCEPT ![t] = "compute"] /\ ops' = [ops EXCEPT ![t] = Append(@, a)]
               /\ UNCHANGED <<common, cells, own, inside, waiting>>
End(t) == /\ pc[t] = "compute"
          /\ own' = [own EXCEPT ![t] = scratch[Slot(t)]] /\ cells' = [cells EXCEPT ![t] = scratch[Slot(t)] + 1]
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<common, scratch, ops, inside, waiting>>
Ask(t) == /\ pc[t] = "idle" /\ t \notin waiting /\ Len(ops[t]) < MaxOps
          /\ waiting' = waiting \cup {t} /\ pc' = [pc EXCEPT ![t] = "plan"] /\ ops' = [ops EXCEPT ![t] = Append(@, 0)]
          /\ UNCHANGED <<common, cells, own, scratch, inside>>
Enter(t) == /\ t \in waiting /\ (Locked => inside = {})
            /\ inside' = inside \cup {t} /\ waiting' = waiting \ {t}
            /\ UNCHANGED <<common, cells, own, scratch, pc, ops>>
Leave(t) == /\ t \in inside /\ inside' = inside \ {t} /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<common, cells, own, scratch, ops, waiting>>
Next == \E t \in Thr : (\E a \in Args : Begin(t, a)) \/ End(t) \/ Ask(t) \/ Enter(t) \/ Leave(t)
Spec == Init /\ [][Next]_tvars

(* What thread t would have got alone *)
RECURSIVE Alone(_, _)
Alone(h, n) == IF n = 0 THEN 0 ELSE IF h[n] = 0 THEN Alone(h, n - 1) ELSE F(common, Alone(h, n - 1), h[n])
Done(t) == IF pc[t] = "compute" THEN Len(ops[t]) - 1 ELSE Len(ops[t])
AsAlone == \A t \in Thr : own[t] = Alone(ops[t], Done(t))
SharedAsAlone == \A t \in Thr : LET n == Done(t) IN
   cells[t] = (IF \E i \in 1..n : ops[t][i] # 0 THEN Alone(ops[t], n) + 1 ELSE 0)
OnePlanner == Cardinality(inside) <= 1
(* nobody waits for ever: whoever waits may enter once the planner is free *)
NoDeadlock == inside = {} => \A t \in waiting : ENABLED Enter(t)
=============================================================================
