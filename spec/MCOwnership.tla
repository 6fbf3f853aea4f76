---------------------------- MODULE MCOwnership ----------------------------
(* Exhaustive exploration of Ownership, and generation of scripts of operations for the driver. *)
EXTENDS Ownership
CONSTANTS NSlots, Depth, Gen
VARIABLES hist, n
Slots == 1..NSlots
Sizes == IF holder = "arr" THEN {4} ELSE {2, 4, 6}
S(x) == ToString(x)
Init == /\ holder \in {"vec", "val", "arr", "ptr", "ali"}
        /\ user = [u \in 1..2 |-> u]
        /\ mem = [b \in 1..2 |-> IF b = 1 THEN <<1, 2, 3, 4>> ELSE <<5, 6>>]
        /\ slot = [s \in Slots |-> None]
        /\ taken = [t \in 1..2 |-> 0]
        /\ hist = holder /\ n = 0
H(x) == n < Depth /\ n' = n + 1 /\ hist' = IF Gen THEN hist \o ";" \o x ELSE x
Mk(k) == [i \in 1..k |-> 10 * n + i]
Next == \/ \E s \in Slots, k \in Sizes, how \in 0..1 : H("new " \o S(s) \o " " \o S(k) \o " " \o S(how)) /\ New(s, Mk(k))
        \/ \E s \in Slots, u \in 1..2 : H("view " \o S(s) \o " " \o S(u)) /\ View(s, u)
        \/ \E d \in Slots, s \in Slots : \/ H("copy " \o S(d) \o " " \o S(s)) /\ Copy(d, s)
                                         \/ H("move " \o S(d) \o " " \o S(s)) /\ Move(d, s)
                                         \/ H("assign " \o S(d) \o " " \o S(s)) /\ Assign(d, s)
                                         \/ H("massign " \o S(d) \o " " \o S(s)) /\ MoveAssign(d, s)
                                         \/ d < s /\ H("swap " \o S(d) \o " " \o S(s)) /\ Swap(d, s)
        \/ \E s \in Slots, k \in 1..2 : H("write " \o S(s) \o " " \o S(k)) /\ Write(s, k, 1000 + n)
        \/ \E u \in 1..2 : H("uwrite " \o S(u) \o " 1") /\ UserWrite(u, 1, 1000 + n)
        \/ \E s \in Slots, t \in 1..2 : H("take " \o S(t) \o " " \o S(s)) /\ TakeOver(t, s)
        \/ \E s \in Slots, t \in 1..2, k \in Sizes : H("movein " \o S(s) \o " " \o S(t) \o " " \o S(k)) /\ MoveIn(s, t, k)
        \/ \E s \in Slots : H("destroy " \o S(s)) /\ Destroy(s)
Spec == Init /\ [][Next]_<<ovars, hist, n>>
Emit == (Gen /\ n = Depth) => PrintT("SCRIPT " \o hist)
(* A pixel changes only by a write to a container or user buffer designating it *)
Frozen == [][\A s \in Slots : (slot[s].st = "live" /\ slot'[s] = slot[s] /\ Vals(s)' # Vals(s)) =>
              \E k \in DOMAIN Vals(s) : Vals(s)' = [Vals(s) EXCEPT ![k] = 1000 + n]]_<<ovars, hist, n>>
MCView == <<holder, mem, slot, user, taken, n>>
=============================================================================
