------------------------------ MODULE Ownership ------------------------------
(* Containers (sequences and rasters) over the five data holders: who designates which memory block.
   holder = "vec", "val", "arr" own their pixels; "ptr" designates user memory; "ali" does either.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES holder,  \* of every container of the current script
          mem,     \* block -> sequence of pixel values (user blocks, owned blocks)
          slot,    \* container name -> [st, block, user]; st: "none" (not alive), "live", "moved" (unspecified value)
          user,    \* user buffer name -> block
          taken    \* standard container name -> block, or 0 if it holds nothing specified
ovars == <<holder, mem, slot, user, taken>>

None == [st |-> "none", block |-> 0, user |-> FALSE]
Moved == [st |-> "moved", block |-> 0, user |-> FALSE]
Live(b, u) == [st |-> "live", block |-> b, user |-> u]
Owning == holder # "ptr"
Viewing == holder \in {"ptr", "ali"}
Dynamic == holder # "arr"     \* moves transfer the memory block itself
Fresh == CHOOSE b \in 1..(Cardinality(DOMAIN mem) + 1) : b \notin DOMAIN mem
Referenced(sl, tk) == {sl[s].block : s \in DOMAIN sl} \union {user[u] : u \in DOMAIN user} \union {tk[t] : t \in DOMAIN tk}
(* Forget the blocks nobody designates any more *)
Trim(m, sl, tk) == [b \in DOMAIN m \cap Referenced(sl, tk) |-> m[b]]
Alloc(v) == [b \in DOMAIN mem \union {Fresh} |-> IF b = Fresh THEN v ELSE mem[b]]
Commit(m, sl, tk) == /\ slot' = sl /\ taken' = tk /\ mem' = Trim(m, sl, tk) /\ UNCHANGED <<holder, user>>

IsLive(s) == slot[s].st = "live"
Alive(s) == slot[s].st # "none"
Vals(s) == mem[slot[s].block]

New(s, v) == /\ Owning /\ ~Alive(s)
             /\ Commit(Alloc(v), [slot EXCEPT ![s] = Live(Fresh, FALSE)], taken)
View(s, u) == /\ Viewing /\ ~Alive(s)
              /\ Commit(mem, [slot EXCEPT ![s] = Live(user[u], TRUE)], taken)
(* The block a copy of s designates: the same one for a view, a new one with the same values otherwise *)
CopyInto(d, s) == IF slot[s].user THEN Commit(mem, [slot EXCEPT ![d] = slot[s]], taken)
                  ELSE Commit(Alloc(Vals(s)), [slot EXCEPT ![d] = Live(Fresh, FALSE)], taken)
MoveInto(d, s) == IF Dynamic \/ slot[s].user
                  THEN Commit(mem, [slot EXCEPT ![d] = slot[s], ![s] = Moved], taken)
                  ELSE Commit(Alloc(Vals(s)), [slot EXCEPT ![d] = Live(Fresh, FALSE), ![s] = Moved], taken)
Copy(d, s) == ~Alive(d) /\ IsLive(s) /\ CopyInto(d, s)
Move(d, s) == ~Alive(d) /\ IsLive(s) /\ MoveInto(d, s)
Assign(d, s) == Alive(d) /\ IsLive(s) /\ (IF d = s THEN UNCHANGED ovars ELSE CopyInto(d, s))
MoveAssign(d, s) == Alive(d) /\ IsLive(s) /\ d # s /\ MoveInto(d, s)
Swap(a, b) == /\ IsLive(a) /\ IsLive(b) /\ a # b
              /\ Commit(mem, [slot EXCEPT ![a] = slot[b], ![b] = slot[a]], taken)
Poke(b, k, v) == mem' = [mem EXCEPT ![b][k] = v] /\ UNCHANGED <<holder, slot, user, taken>>
Write(s, k, v) == IsLive(s) /\ k \in DOMAIN Vals(s) /\ Poke(slot[s].block, k, v)
UserWrite(u, k, v) == k \in DOMAIN mem[user[u]] /\ Poke(user[u], k, v)
(* moveTo(): a standard container takes the data over *)
TakeOver(t, s) == /\ holder \in {"vec", "val", "arr"} /\ IsLive(s)
                  /\ IF Dynamic THEN Commit(mem, [slot EXCEPT ![s] = Moved], [taken EXCEPT ![t] = slot[s].block])
                     ELSE Commit(Alloc(Vals(s)), [slot EXCEPT ![s] = Moved], [taken EXCEPT ![t] = Fresh])
(* A container is built by moving a standard container into it, as long as the sizes agree *)
MoveIn(d, t, n) == /\ holder \in {"vec", "val", "arr"} /\ ~Alive(d) /\ taken[t] # 0
                   /\ IF Len(mem[taken[t]]) # n
                      THEN Commit(mem, slot, [taken EXCEPT ![t] = 0])
                      ELSE IF Dynamic THEN Commit(mem, [slot EXCEPT ![d] = Live(taken[t], FALSE)], [taken EXCEPT ![t] = 0])
                      ELSE Commit(Alloc(mem[taken[t]]), [slot EXCEPT ![d] = Live(Fresh, FALSE)], [taken EXCEPT ![t] = 0])
Destroy(s) == Alive(s) /\ Commit(mem, [slot EXCEPT ![s] = None], taken)

(* Properties of the model (C06) *)
LiveSlots == {s \in DOMAIN slot : IsLive(s)}
OwnersIndependent == \A a \in LiveSlots, b \in LiveSlots :
   (a # b /\ slot[a].block = slot[b].block) => (slot[a].user /\ slot[b].user)
OwnersPrivate == \A a \in LiveSlots : ~slot[a].user =>
   /\ slot[a].block \notin {user[u] : u \in DOMAIN user} /\ slot[a].block \notin {taken[t] : t \in DOMAIN taken}
ViewsOnUser == \A a \in LiveSlots : slot[a].user => slot[a].block \in {user[u] : u \in DOMAIN user}
UserMemoryKept == \A u \in DOMAIN user : user[u] \in DOMAIN mem
NoDangling == \A a \in LiveSlots : slot[a].block \in DOMAIN mem
==============================================================================
