------------------------------ MODULE Aligned ------------------------------
(* Aligned buffers: which memory blocks exist, who must free them, what each buffer designates (C07). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES blocks, \* block -> [vals, st]; st: "owned" by a buffer, "released" to the user (freed blocks are removed)
          ext,    \* external memory -> [vals, mod]; mod: address modulo some large power of two
          buf,    \* buffer name -> [st, kind, id, req, owns]; kind: "null", "blk", "ext"
          frees   \* number of blocks freed by the buffers so far
avars == <<blocks, ext, buf, frees>>

Simd == 64
NoBuf == [st |-> "none", kind |-> "null", id |-> 0, req |-> 1, owns |-> FALSE]
Empty == [st |-> "live", kind |-> "null", id |-> 0, req |-> 1, owns |-> FALSE]
Mk(kind, id, req, owns) == [st |-> "live", kind |-> kind, id |-> id, req |-> req, owns |-> owns]
OwnReq(align) == IF align \in {0, -1} THEN Simd ELSE align
ExtReq(align) == IF align = 0 THEN 1 ELSE IF align = -1 THEN Simd ELSE align
Alive(s) == buf[s].st = "live"
FreshBlock == CHOOSE b \in 1..(Cardinality(DOMAIN blocks) + 1) : b \notin DOMAIN blocks
Vals(s) == CASE buf[s].kind = "blk" -> blocks[buf[s].id].vals
             [] buf[s].kind = "ext" -> ext[buf[s].id].vals
             [] OTHER -> <<>>
(* Remove the block owned by s, if any *)
Without(s) == IF buf[s].owns THEN [b \in DOMAIN blocks \ {buf[s].id} |-> blocks[b]] ELSE blocks
With(bl, b, v) == [x \in DOMAIN bl \union {b} |-> IF x = b THEN [vals |-> v, st |-> "owned"] ELSE bl[x]]
Freed(s) == frees + (IF buf[s].owns THEN 1 ELSE 0)
(* Nobody else may keep on designating the memory s is about to free: that is the caller's duty *)
SafeToDrop(s) == buf[s].owns => \A o \in DOMAIN buf : (o # s /\ Alive(o)) => ~(buf[o].kind = "blk" /\ buf[o].id = buf[s].id)

Alloc(s, v, align) == /\ ~Alive(s) /\ blocks' = With(blocks, FreshBlock, v)
                      /\ buf' = [buf EXCEPT ![s] = Mk("blk", FreshBlock, OwnReq(align), TRUE)] /\ UNCHANGED <<ext, frees>>
WrapThrows(u, align) == ext[u].mod % ExtReq(align) # 0
Wrap(s, u, align) == /\ ~Alive(s) /\ UNCHANGED <<blocks, ext, frees>>
                     /\ buf' = IF WrapThrows(u, align) THEN buf ELSE [buf EXCEPT ![s] = Mk("ext", u, ExtReq(align), FALSE)]
(* d becomes a copy of s; emptyOwns: copies of an empty buffer may own an empty block or nothing *)
CopyInto(d, s, emptyOwns) ==
  LET bl == IF Alive(d) THEN Without(d) ELSE blocks
      f == CHOOSE b \in 1..(Cardinality(DOMAIN blocks) + 1) : b \notin DOMAIN blocks IN
  /\ frees' = IF Alive(d) THEN Freed(d) ELSE frees
  /\ UNCHANGED ext
  /\ IF buf[s].owns \/ (buf[s].kind = "null" /\ emptyOwns)
     THEN blocks' = With(bl, f, Vals(s)) /\ buf' = [buf EXCEPT ![d] = Mk("blk", f, buf[s].req, TRUE)]
     ELSE blocks' = bl /\ buf' = [buf EXCEPT ![d] = buf[s]]
Copy(d, s, eo) == ~Alive(d) /\ Alive(s) /\ CopyInto(d, s, eo)
Move(d, s) == /\ ~Alive(d) /\ Alive(s) /\ buf' = [buf EXCEPT ![d] = buf[s], ![s] = Empty] /\ UNCHANGED <<blocks, ext, frees>>
Assign(d, s, eo) == Alive(d) /\ Alive(s) /\ (IF d = s THEN UNCHANGED avars ELSE SafeToDrop(d) /\ CopyInto(d, s, eo))
MoveAssign(d, s) == /\ Alive(d) /\ Alive(s)
                    /\ IF d = s THEN UNCHANGED avars
                       ELSE /\ SafeToDrop(d) /\ blocks' = Without(d) /\ frees' = Freed(d)
                            /\ buf' = [buf EXCEPT ![d] = buf[s], ![s] = Empty] /\ UNCHANGED ext
(* The caller gets the memory of an owner, nothing from another buffer *)
Release(s) == /\ Alive(s)
              /\ IF buf[s].owns THEN /\ blocks' = [blocks EXCEPT ![buf[s].id].st = "released"]
                                     /\ buf' = [buf EXCEPT ![s].owns = FALSE] /\ UNCHANGED <<ext, frees>>
                 ELSE UNCHANGED avars
(* The user frees released memory which no buffer designates any more *)
UserFree(b) == /\ b \in DOMAIN blocks /\ blocks[b].st = "released"
               /\ \A o \in DOMAIN buf : Alive(o) => ~(buf[o].kind = "blk" /\ buf[o].id = b)
               /\ blocks' = [x \in DOMAIN blocks \ {b} |-> blocks[x]] /\ UNCHANGED <<ext, buf, frees>>
Reset(s) == /\ Alive(s) /\ SafeToDrop(s) /\ blocks' = Without(s) /\ frees' = Freed(s)
            /\ buf' = [buf EXCEPT ![s] = Empty] /\ UNCHANGED ext
Destroy(s) == /\ Alive(s) /\ SafeToDrop(s) /\ blocks' = Without(s) /\ frees' = Freed(s)
              /\ buf' = [buf EXCEPT ![s] = NoBuf] /\ UNCHANGED ext
Write(s, k, v) == /\ Alive(s) /\ k \in DOMAIN Vals(s) /\ UNCHANGED <<buf, frees>>
                  /\ IF buf[s].kind = "blk" THEN blocks' = [blocks EXCEPT ![buf[s].id].vals[k] = v] /\ UNCHANGED ext
                     ELSE ext' = [ext EXCEPT ![buf[s].id].vals[k] = v] /\ UNCHANGED blocks
ExtWrite(u, k, v) == k \in DOMAIN ext[u].vals /\ ext' = [ext EXCEPT ![u].vals[k] = v] /\ UNCHANGED <<blocks, buf, frees>>

(* Properties *)
LiveBufs == {s \in DOMAIN buf : Alive(s)}
OneOwner == \A a \in LiveBufs, b \in LiveBufs : (a # b /\ buf[a].owns /\ buf[b].owns) => buf[a].id # buf[b].id
NoDangling == \A a \in LiveBufs : buf[a].kind = "blk" => buf[a].id \in DOMAIN blocks
(* No memory is lost: every block has exactly one owner, or was handed to the user *)
NoLeak == \A b \in DOMAIN blocks : (blocks[b].st = "owned") = (\E a \in LiveBufs : buf[a].owns /\ buf[a].id = b)
OwnsOnlyBlocks == \A a \in LiveBufs : buf[a].owns => buf[a].kind = "blk"
============================================================================
