---------------------------- MODULE TraceRegions ----------------------------
(* Validates logs of box and ball iteration (C03, C12) and box algebra (C11). *)
EXTENDS Regions, TraceLog

vars == <<seqs, cur, l>>
Init == seqs = <<>> /\ cur = <<>> /\ l = 1
Same == UNCHANGED <<seqs, cur>>
EvBox == Box(Ev.front, Ev.back)

(* ---- whole iterations ---- *)
DoIterBox == /\ Is("iterBox") /\ Same
             /\ ~Ev.runaway
             /\ Ev.seq = BoxSeq(EvBox)
             /\ (~BoxEmpty(EvBox) => Ev.size = Len(Ev.seq))
(* positions visited by a raster domain, as storage indices *)
DoDomain == /\ Is("domainVisit") /\ Same /\ ~Ev.runaway
            /\ Ev.idx = [i \in 1..ShapeSize(Ev.shape) |-> i - 1]
            /\ Ev.seq = BoxSeq(Domain(Ev.shape))
            /\ Ev.empty = (ShapeSize(Ev.shape) = 0)
DoIterBall == /\ Is("iterBall") /\ Same /\ ~Ev.runaway
              /\ LET s == BallSeq(Ev.center, Ev.p, Ev.r4) IN
                 /\ Ev.seq = s
                 /\ Ev.size = Len(s)
                 /\ Ev.bfront = BallBox(Ev.center, Ev.r4).front /\ Ev.bback = BallBox(Ev.center, Ev.r4).back
                 /\ Ev.shape = BoxShape(BallBox(Ev.center, Ev.r4))
                 /\ Ev.len0 = BoxShape(BallBox(Ev.center, Ev.r4))[1] /\ Ev.dim = Len(Ev.center)
                 /\ Ev.ocenter = Ev.center /\ Ev.or4 = Ev.r4
(* large balls, by rows *)
DoBigBall == /\ Is("bigBall") /\ Same /\ ~Ev.runaway
             /\ LET rows == BallRows(Ev.center, Ev.p, Ev.r4)
                    n == [i \in DOMAIN rows |-> rows[i][2][1]] IN
                /\ Ev.starts = [i \in DOMAIN rows |-> rows[i][1]] /\ Ev.lens = n
                /\ Ev.size = Sum(n)
                /\ Ev.bfront = BallBox(Ev.center, Ev.r4).front /\ Ev.bback = BallBox(Ev.center, Ev.r4).back
                /\ Ev.shape = BoxShape(BallBox(Ev.center, Ev.r4))
(* moving a ball moves its positions *)
DoBallOp == /\ Is("ballOp") /\ Same
            /\ LET c == IF Ev.f = "add" THEN VAdd(Ev.center, Ev.v)
                        ELSE IF Ev.f = "sub" THEN VSub(Ev.center, Ev.v)
                        ELSE IF Ev.f = "addS" THEN VAddS(Ev.center, Ev.v[1])
                        ELSE IF Ev.f = "subS" THEN VAddS(Ev.center, -Ev.v[1])
                        ELSE IF Ev.f = "inc" THEN VAddS(Ev.center, 1)
                        ELSE IF Ev.f = "dec" THEN VAddS(Ev.center, -1)
                        ELSE IF Ev.f = "neg" THEN VNeg(Ev.center) ELSE Ev.center IN
               /\ Ev.ocenter = c /\ Ev.or4 = Ev.r4
               /\ Ev.eq = (c = Ev.center) /\ Ev.ne = ~Ev.eq
               /\ Ev.seq = BallSeq(c, Ev.p, Ev.r4)

(* ---- cursors ---- *)
DoBallEq == Is("ballEq") /\ Same /\ Ev.eq = (Ev.center = Ev.acenter /\ Ev.r4 = Ev.ar4) /\ Ev.ne = ~Ev.eq
DoRegion == Is("region") /\ NewRegion(Ev.r, IF Ev.ball THEN BallSeq(Ev.center, Ev.p, Ev.r4) ELSE BoxSeq(EvBox))
DoBegin == Is("begin") /\ BeginCur(Ev.c, Ev.r)
DoEnd0 == Is("endc") /\ EndCur(Ev.c, Ev.r)
DoCopy == Is("copy") /\ CopyCur(Ev.c, Ev.d)
DoReset == Is("reset") /\ ResetCur(Ev.c)
DoPre == LET k == cur[Ev.c].k + 1
             s == seqs[cur[Ev.c].reg] IN
         Is("pre") /\ NextCur(Ev.c) /\ (k < Len(s) => Ev.at = s[k + 1])
DoPost == Is("post") /\ Ev.at = Deref(Ev.c) /\ NextCur(Ev.c)
DoDeref == Is("deref") /\ Same /\ ~AtEnd(Ev.c) /\ Ev.at = Deref(Ev.c) /\ Ev.x0 = Deref(Ev.c)[1]
DoEq == Is("eq") /\ Same /\ cur[Ev.c].reg = cur[Ev.d].reg /\ Ev.eq = EqCur(Ev.c, Ev.d) /\ Ev.ne = ~EqCur(Ev.c, Ev.d)

(* ---- box algebra: the operand, the result, and the operand afterwards ---- *)
Out == Box(Ev.ofront, Ev.oback)
Arg == Box(Ev.afront, Ev.aback)
Expected == CASE Ev.f = "grow" -> Grow(EvBox, Arg)
              [] Ev.f = "shrink" -> Shrink(EvBox, Arg)
              [] Ev.f = "shift" -> Shift(EvBox, Ev.afront)
              [] Ev.f = "unshift" -> Shift(EvBox, VNeg(Ev.afront))
              [] Ev.f = "shiftS" -> ShiftS(EvBox, Ev.afront[1])
              [] Ev.f = "unshiftS" -> ShiftS(EvBox, -Ev.afront[1])
              [] Ev.f = "inc" -> ShiftS(EvBox, 1)
              [] Ev.f = "dec" -> ShiftS(EvBox, -1)
              [] Ev.f = "pos" -> EvBox
              [] Ev.f = "neg" -> NegBox(EvBox)
              [] Ev.f = "project" -> Project(EvBox, Ev.afront[1] + 1)
              [] Ev.f = "fromShape" -> Box(EvBox.front, VAddS(VAdd(EvBox.front, Ev.afront), -1))
              [] Ev.f = "fromCenter" -> Box(VAddS(EvBox.front, -Ev.afront[1]), VAddS(EvBox.front, Ev.afront[1]))
DoBoxOp == /\ Is("boxOp") /\ Same
           /\ Out = Expected
           /\ IF Ev.inplace THEN Ev.after = <<Out.front, Out.back>> /\ Ev.same
              ELSE Ev.after = <<Ev.front, Ev.back>>
DoBoxProps == /\ Is("boxProps") /\ Same
              /\ Ev.shape = BoxShape(EvBox) /\ Ev.dim = BoxDim(EvBox)
              /\ Ev.lens = BoxShape(EvBox) /\ Ev.tlens \in {<<>>, BoxShape(EvBox)}
              /\ Ev.ofront = Ev.front /\ Ev.oback = Ev.back
              /\ (~BoxEmpty(EvBox) => Ev.size = BoxSize(EvBox))
DoBoxEq == /\ Is("boxEq") /\ Same
           /\ Ev.eq = (Ev.front = Ev.afront /\ Ev.back = Ev.aback) /\ Ev.ne = ~Ev.eq
NonNegative(v) == [k \in 1..Len(v) |-> IF v[k] > 0 THEN v[k] ELSE 0]
(* the unlimited region: from the origin on *)
DoBoxWhole == /\ Is("boxWhole") /\ Same
              /\ Ev.inf /\ Ev.wfront = VConst(Len(Ev.front), 0)
              /\ Ev.cfront = NonNegative(Ev.front) /\ Ev.cback = NonNegative(Ev.back)
DoSurround == /\ Is("surround") /\ Same
              /\ LET out == [i \in 1..Len(Ev.fronts) |-> Box(Ev.fronts[i], Ev.backs[i])] IN
                 /\ ValidMargin(Arg)
                 /\ IsSurrounding(EvBox, Arg, out)
                 /\ Ev.after = <<Ev.front, Ev.back, Ev.afront, Ev.aback>>
DoClampShape == Is("clampShape") /\ Same /\ Ev.out = ClampPos(Ev.pos, VConst(Len(Ev.pos), 0), VAddS(Ev.shape, -1))
DoClampBox == Is("clampBox") /\ Same /\ Ev.out = ClampPos(Ev.pos, Ev.front, Ev.back)
(* bounds and position are multiples of a large unit; lens and rems are the quotients and remainders of the lengths minus 1 *)
DoBoxHuge == /\ Is("boxHuge") /\ Same /\ Ev.same
             /\ Ev.lens = VSub(Ev.back, Ev.front) /\ Ev.rems = VConst(Len(Ev.front), 0)
             /\ Ev.out = ClampPos(Ev.pos, Ev.front, Ev.back)
(* vectors of coordinates *)
DoVec == /\ Is("vec") /\ Same
         /\ Ev.zero = VConst(Ev.n, 0) /\ Ev.one = VConst(Ev.n, 1)
         /\ Ev.isZero = (Ev.v = VConst(Len(Ev.v), 0)) /\ Ev.isOne = (Ev.v = VConst(Len(Ev.v), 1))
         /\ Ev.infIsInf
DoVecDim == /\ Is("vecDim") /\ Same
            /\ Ev.slice = SubSeq(Ev.v, 1, Ev.m)
            /\ Ev.extend = Ev.v \o SubSeq(Ev.pad, Len(Ev.v) + 1, Len(Ev.pad))
            /\ Ev.extend0 = Ev.v \o VConst(Len(Ev.pad) - Len(Ev.v), 0)

DoEnd == Is("end") /\ Same
Next == \/ DoIterBox \/ DoDomain \/ DoIterBall \/ DoBigBall \/ DoBallOp \/ DoBallEq \/ DoRegion \/ DoBegin \/ DoEnd0 \/ DoCopy \/ DoReset
        \/ DoPre \/ DoPost \/ DoDeref \/ DoEq \/ DoBoxOp \/ DoBoxProps \/ DoBoxEq \/ DoBoxWhole \/ DoSurround
        \/ DoClampShape \/ DoClampBox \/ DoBoxHuge \/ DoVec \/ DoVecDim \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
