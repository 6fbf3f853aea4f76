---------------------------- MODULE TraceAligned ----------------------------
(* Validates histories of aligned buffers replayed from scripts (C07). *)
EXTENDS Aligned, TraceLog
vars == <<avars, l>>
Init == l = 1 /\ blocks = <<>> /\ ext = <<>> /\ buf = <<>> /\ frees = 0
Begin == /\ Is("begin") /\ blocks' = <<>> /\ frees' = 0
         /\ ext' = [u \in 1..2 |-> [vals |-> Ev.ext[u], mod |-> Ev.mod[u]]]
         /\ buf' = [s \in 1..Ev.slots |-> NoBuf]
IsPow2(x) == x \in {2^k : k \in 0..30}
AlnOK(aln, low) == IsPow2(aln) /\ IF low = 0 THEN aln >= 268435456 ELSE low % aln = 0 /\ low % (2 * aln) # 0
ValsP(s) == CASE buf'[s].kind = "blk" -> blocks'[buf'[s].id].vals
              [] buf'[s].kind = "ext" -> ext'[buf'[s].id].vals
              [] OTHER -> <<>>
Seen(o) ==
  /\ \A s \in DOMAIN buf' : buf'[s].st = "live" =>
       LET b == buf'[s] IN
       /\ o.vals[s] = ValsP(s) /\ o.sizes[s] = Len(ValsP(s))
       /\ o.req[s] = b.req /\ (o.owns[s] = 1) = b.owns
       /\ o.isExt[s] = (IF b.kind = "ext" THEN b.id ELSE 0)
       /\ (o.null[s] = 1) = (b.kind = "null")
       /\ IF b.kind = "null" THEN o.aln[s] = -1
          ELSE AlnOK(o.aln[s], o.low[s]) /\ o.low[s] % b.req = 0
  /\ \A u \in DOMAIN ext' : o.ext[u] = ext'[u].vals
  /\ o.outstanding = Cardinality(DOMAIN blocks')
  /\ o.frees = frees' /\ o.bad = 0
Op(name, a) == Is(name) /\ a /\ Seen(Log[l].obs)
DoAlloc == Op("alloc", Alloc(Ev.s, Ev.vals, Ev.align))
DoWrap == Op("wrap", Wrap(Ev.s, Ev.u, Ev.align)) /\ Ev.threw = WrapThrows(Ev.u, Ev.align)
DoCopy == Op("copy", \E eo \in BOOLEAN : Copy(Ev.d, Ev.s, eo))
DoMove == Op("move", Move(Ev.d, Ev.s))
DoAssign == Op("assign", \E eo \in BOOLEAN : Assign(Ev.d, Ev.s, eo))
DoMoveAssign == Op("massign", MoveAssign(Ev.d, Ev.s))
(* what release() returns is the memory of the owner: a live allocation whose bytes contain the data *)
DoRelease == /\ Op("release", Release(Ev.s))
             /\ Ev.got = buf[Ev.s].owns /\ Ev.covers
DoUserFree == Op("ufree", \E b \in DOMAIN blocks : UserFree(b))
DoReset == Op("reset", Reset(Ev.s))
DoDestroy == Op("destroy", Destroy(Ev.s))
DoWrite == Op("write", Write(Ev.s, Ev.k, Ev.v))
DoExtWrite == Op("ewrite", ExtWrite(Ev.u, Ev.k, Ev.v))
DoIsAligned == Is("isal") /\ UNCHANGED avars /\ Ev.out = (Ev.low % Ev.as = 0) /\ AlnOK(Ev.aln, Ev.low)
DoNull == Is("nullal") /\ UNCHANGED avars /\ Ev.threw1 /\ Ev.threw2
DoEnd == Is("end") /\ UNCHANGED avars
Next == \/ Begin \/ DoAlloc \/ DoWrap \/ DoCopy \/ DoMove \/ DoAssign \/ DoMoveAssign \/ DoRelease \/ DoUserFree
        \/ DoReset \/ DoDestroy \/ DoWrite \/ DoExtWrite \/ DoIsAligned \/ DoNull \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
