-------------------------- MODULE TraceOwnership --------------------------
(* Validates the histories of containers replayed from scripts (C06). After each operation the driver logs
   the pixels of every container and buffer, and the identity of their memory (addr: same number iff same address). *)
EXTENDS Ownership, TraceLog
vars == <<ovars, l>>
Init == l = 1 /\ holder = "" /\ mem = <<>> /\ slot = <<>> /\ user = <<>> /\ taken = <<>>
Begin == /\ Is("begin") /\ holder' = Ev.holder
         /\ user' = [u \in 1..2 |-> u] /\ mem' = Ev.user
         /\ slot' = [s \in 1..Ev.slots |-> None] /\ taken' = [t \in 1..2 |-> 0]
Entities(sl, tk) == {<<"c", s>> : s \in {x \in DOMAIN sl : sl[x].st = "live"}}
                    \union {<<"u", u>> : u \in 1..2} \union {<<"t", t>> : t \in {x \in 1..2 : tk[x] # 0}}
(* In the state after the operation, everything observed is as specified *)
Seen(o) ==
  /\ \A s \in DOMAIN slot' : slot'[s].st = "live" =>
       /\ o.vals[s] = mem'[slot'[s].block] /\ o.shapes[s] = <<2, Len(o.vals[s]) \div 2>>
       /\ o.sizes[s] = Len(o.vals[s])
  /\ \A u \in 1..2 : o.uvals[u] = mem'[user'[u]]
  /\ \A t \in 1..2 : taken'[t] # 0 => o.tvals[t] = mem'[taken'[t]]
  /\ LET addr(e) == IF e[1] = "c" THEN o.addr[e[2]] ELSE IF e[1] = "u" THEN o.uaddr[e[2]] ELSE o.taddr[e[2]]
         block(e) == IF e[1] = "c" THEN slot'[e[2]].block ELSE IF e[1] = "u" THEN user'[e[2]] ELSE taken'[e[2]]
         E == Entities(slot', taken') IN
     \A a \in E, b \in E : (addr(a) = addr(b)) = (block(a) = block(b))
Op(name, a) == Is(name) /\ a /\ Seen(Log[l].obs)
Kept == (holder \in {"vec", "val", "ali", "ptr"}) => Log[l].kept
DoNew == Op("new", New(Ev.s, Ev.vals))
DoView == Op("view", View(Ev.s, Ev.u)) /\ Kept
DoCopy == Op("copy", Copy(Ev.d, Ev.s))
DoMove == Op("move", Move(Ev.d, Ev.s)) /\ Kept
DoAssign == Op("assign", Assign(Ev.d, Ev.s))
DoMoveAssign == Op("massign", MoveAssign(Ev.d, Ev.s)) /\ Kept
DoSwap == Op("swap", Swap(Ev.d, Ev.s)) /\ Kept
DoWrite == Op("write", Write(Ev.s, Ev.k, Ev.v))
DoUserWrite == Op("uwrite", UserWrite(Ev.u, Ev.k, Ev.v))
DoTake == Op("take", TakeOver(Ev.t, Ev.s)) /\ Kept
DoMoveIn == /\ Op("movein", MoveIn(Ev.d, Ev.t, Ev.n))
            /\ Ev.threw = (Len(mem[taken[Ev.t]]) # Ev.n)
            /\ (~Ev.threw => Kept)
DoDestroy == Op("destroy", Destroy(Ev.s))
DoEnd == Is("end") /\ UNCHANGED ovars
Next == \/ Begin \/ DoNew \/ DoView \/ DoCopy \/ DoMove \/ DoAssign \/ DoMoveAssign \/ DoSwap \/ DoWrite
        \/ DoUserWrite \/ DoTake \/ DoMoveIn \/ DoDestroy \/ DoEnd
Spec == Init /\ [][Next]_vars
============================================================================
