----------------------------- MODULE TraceViews -----------------------------
(* Validates logs of subrasters, slices and sections (C04, C05). *)
EXTENDS Views, TraceLog
vars == <<memory, views, l>>
Init == memory = <<>> /\ views = <<>> /\ l = 1
Same == UNCHANGED <<memory, views>>
EvBox == Box(Ev.front, Ev.back)

DoParent == Is("parent") /\ NewParent(Ev.id, Ev.shape, Ev.vals)
DoSub == /\ Is("sub") /\ Sub(Ev.id, Ev.parent, EvBox)
         /\ Ev.shape = BoxShape(EvBox) /\ Ev.size = BoxSize(EvBox)
         /\ Ev.rfront = Ev.front /\ Ev.rback = Ev.back /\ Ev.sameParent
DoSlice == /\ Is("slice")
           /\ LET c == Contiguous(views[Ev.parent].shape, Ev.m, EvBox) IN
              /\ Ev.contig = c
              /\ Ev.threw = ~c
              /\ IF c THEN /\ Slice(Ev.id, Ev.parent, Ev.m, EvBox)
                           /\ Ev.shape = SubSeq(BoxShape(EvBox), 1, Ev.m)
                           /\ Ev.size = BoxSize(EvBox)
                           /\ (BoxSize(EvBox) > 0 => Ev.off + 1 = CellsOf(Ev.parent, EvBox)[1])
                 ELSE Same
DoSection == /\ Is("section")
             /\ Section(Ev.id, Ev.parent, Ev.lo, Ev.hi)
             /\ LET x == SectionBox(views[Ev.parent].shape, Ev.lo, Ev.hi) IN
                Ev.shape = BoxShape(x) /\ Ev.size = BoxSize(x) /\ Ev.off + 1 = CellsOf(Ev.parent, x)[1]
DoSection1 == /\ Is("section1")
              /\ Section1(Ev.id, Ev.parent, Ev.lo)
              /\ LET x == SectionBox(views[Ev.parent].shape, Ev.lo, Ev.lo) IN
                 Ev.shape = SubSeq(BoxShape(x), 1, BoxDim(x) - 1) /\ Ev.size = BoxSize(x) /\ Ev.off + 1 = CellsOf(Ev.parent, x)[1]
DoContig == /\ Is("contig") /\ Same
            /\ Ev.out = Contiguous(views[Ev.parent].shape, Ev.m, EvBox)
DoRead == Is("read") /\ Same /\ ~Ev.runaway /\ Ev.vals = ReadAll(Ev.id)
(* addresses of the pixels visited by an iteration, relative to the parent's first pixel *)
DoCells == Is("cells") /\ Same /\ ~Ev.runaway /\ Ev.offs = [k \in 1..Len(views[Ev.id].cells) |-> views[Ev.id].cells[k] - 1]
DoWriteAll == Is("write") /\ ~Ev.runaway /\ WriteAll(Ev.id, Ev.vals)
DoReadPos == Is("rpos") /\ Same /\ Ev.out = ReadAt(Ev.id, IndexOf(views[Ev.id].shape, Ev.pos))
DoWritePos == Is("wpos") /\ WriteAt(Ev.id, IndexOf(views[Ev.id].shape, Ev.pos), Ev.val)
DoWriteK == Is("wk") /\ WriteAt(Ev.id, Ev.k, Ev.val)
DoReadK == Is("rk") /\ Same /\ Ev.out = ReadAt(Ev.id, Ev.k)
DoEnd == Is("end") /\ Same
Next == \/ DoParent \/ DoSub \/ DoSlice \/ DoSection \/ DoSection1 \/ DoContig \/ DoRead \/ DoCells \/ DoWriteAll
        \/ DoReadPos \/ DoWritePos \/ DoWriteK \/ DoReadK \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
