----------------------------- MODULE TraceLayout -----------------------------
(* Validates logs of raster construction, access and checked access (C01, C02). *)
EXTENDS Layout, TraceLog, BigNat

vars == <<shp, mem, l>>
Init == shp = <<>> /\ mem = <<>> /\ l = 1

Same == UNCHANGED <<shp, mem>>

(* A raster is built from a shape and values; it advertises its shape, size, lengths, dimension *)
DoNew == /\ Is("new")
         /\ New(Ev.id, Ev.shape, Ev.vals)
         /\ Ev.size = ShapeSize(Ev.shape) /\ Ev.oshape = Ev.shape /\ Ev.dim = Len(Ev.shape)
         /\ Ev.lens = Ev.shape /\ Ev.lensI = Ev.shape
         /\ Ev.strides = [k \in 1..Len(Ev.shape) |-> Stride(Ev.shape, k)]
         /\ Ev.domFront = Domain(Ev.shape).front /\ Ev.domBack = Domain(Ev.shape).back

(* index(pos) for every position, enumerated in storage order *)
DoIndexAll == /\ Is("indexAll") /\ Same
              /\ LET s == shp[Ev.id] IN Ev.out = [i \in 1..ShapeSize(s) |-> IndexOf(s, PosOf(s, i - 1))]
DoIndex == /\ Is("index") /\ Same
           /\ Len(Ev.pos) = Len(shp[Ev.id]) /\ ~Ev.threw
           /\ Ev.out = IndexOf(shp[Ev.id], Ev.pos)
DoIndexBad == /\ Is("indexBad") /\ Same
              /\ Len(Ev.pos) # Len(shp[Ev.id])
              /\ Ev.threw

(* All pixels as seen through one route, in storage order *)
DoDump == /\ Is("dump") /\ Same
          /\ Ev.vals = mem[Ev.id]

DoWritePos == /\ Is("wpos") /\ WritePos(Ev.id, Ev.pos, Ev.val)
DoWriteIdx == /\ Is("widx") /\ WriteIndex(Ev.id, Ev.idx, Ev.val)

(* Checked accesses *)
DoAtPos == /\ Is("atpos") /\ Same
           /\ LET s == shp[Ev.id] IN
              IF PosInReach(s, Ev.pos) THEN ~Ev.threw /\ Ev.out = ReadPos(Ev.id, WrapPos(s, Ev.pos))
              ELSE Ev.threw
DoWAtPos == /\ Is("watpos")
            /\ LET s == shp[Ev.id] IN
               IF PosInReach(s, Ev.pos) THEN ~Ev.threw /\ WritePos(Ev.id, WrapPos(s, Ev.pos), Ev.val)
               ELSE Ev.threw /\ Same
DoAt == /\ Is("at") /\ Same
        /\ LET n == Len(mem[Ev.id]) IN
           IF InReach(Ev.idx, n) THEN ~Ev.threw /\ Ev.out = ReadIndex(Ev.id, Wrap(Ev.idx, n)) ELSE Ev.threw
DoWAt == /\ Is("wat")
         /\ LET n == Len(mem[Ev.id]) IN
            IF InReach(Ev.idx, n) THEN ~Ev.threw /\ WriteIndex(Ev.id, Wrap(Ev.idx, n), Ev.val) ELSE Ev.threw /\ Same
(* A whole sweep of checked reads: outs[k] is <<threw, value>> for index lo + k - 1 *)
DoAtSweep == /\ Is("atsweep") /\ Same
             /\ LET n == Len(mem[Ev.id]) IN
                \A k \in 1..Len(Ev.outs) : LET c == Ev.lo + k - 1 IN
                   IF InReach(c, n) THEN Ev.outs[k] = <<0, ReadIndex(Ev.id, Wrap(c, n))>> ELSE Ev.outs[k][1] = 1
(* The same over the box lo..hi of positions, storage order *)
DoAtPosSweep == /\ Is("atpossweep") /\ Same
                /\ LET s == shp[Ev.id]
                       q == BoxSeq(Box(Ev.lo, Ev.hi)) IN
                   /\ Len(Ev.outs) = Len(q)
                   /\ \A k \in 1..Len(q) :
                      IF PosInReach(s, q[k]) THEN Ev.outs[k] = <<0, ReadPos(Ev.id, WrapPos(s, q[k]))>>
                      ELSE Ev.outs[k][1] = 1
(* Is a (possibly non-integral) position inside the domain: coordinates are in halves *)
DoContains == /\ Is("contains") /\ Same
              /\ Ev.out = (\A k \in 1..Len(shp[Ev.id]) : Ev.pos2[k] >= 0 /\ Ev.pos2[k] < 2 * shp[Ev.id][k])

DoDrop == /\ Is("drop")
          /\ shp' = [x \in DOMAIN shp \ {Ev.id} |-> shp[x]]
          /\ mem' = [x \in DOMAIN mem \ {Ev.id} |-> mem[x]]

(* Shapes whose sizes exceed 32 bits: only sizes and indices, as limbs *)
RECURSIVE BIndex(_, _, _)
BIndex(s, p, k) == IF k > Len(s) THEN <<>> ELSE BAdd(p[k], BMul(s[k], BIndex(s, p, k + 1)))
RECURSIVE BProd(_, _)
BProd(s, k) == IF k = 0 THEN <<1>> ELSE BMul(s[k], BProd(s, k - 1))
DoBig == /\ Is("big") /\ Same
         /\ LET s == [k \in 1..Len(Ev.shape) |-> FromNat(Ev.shape[k])]
                p == [k \in 1..Len(Ev.shape) |-> FromNat(Ev.pos[k])] IN
            /\ Trim(Ev.index) = Trim(BIndex(s, p, 1))
            /\ Trim(Ev.size) = BProd(s, Len(s))
            /\ Trim(Ev.offset) = Trim(Ev.index)

DoEnd == Is("end") /\ Same

Next == \/ DoNew \/ DoIndexAll \/ DoIndex \/ DoIndexBad \/ DoDump \/ DoWritePos \/ DoWriteIdx
        \/ DoAtPos \/ DoWAtPos \/ DoAt \/ DoWAt \/ DoAtSweep \/ DoAtPosSweep \/ DoContains
        \/ DoDrop \/ DoBig \/ DoEnd
Spec == Init /\ [][Next]_vars
Consistent == \A id \in DOMAIN shp : Len(mem[id]) = ShapeSize(shp[id])
=============================================================================
