--------------------------- MODULE TraceFourier ---------------------------
EXTENDS Fourier, TraceLog
vars == <<bufs, plans, gone, l>>
Slots == 0..7
Init == bufs = <<>> /\ plans = [p \in Slots |-> None] /\ gone = 0 /\ l = 1
Same == UNCHANGED fvars
Pix(re, im) == [i \in 1..Len(re) |-> <<re[i], im[i]>>]
DoCreate == Is("create") /\ Create(Log[l].p, Log[l].kind, Log[l].shape)
DoInvert == Is("inverse") /\ Invert(Log[l].p, Log[l].q)
DoCompose == Is("compose") /\ Compose(Log[l].p, Log[l].q, Log[l].kind, Log[l].shape)
DoFill == Is("fill") /\ Fill(Log[l].p, Log[l].side, Pix(Log[l].re, Log[l].im))
DoSet == Is("set") /\ Set(Log[l].p, Log[l].side, Log[l].i + 1, <<Log[l].re, Log[l].im>>)
DoTransform == Is("transform") /\ Transform(Log[l].p)
DoNormalize == Is("normalize") /\ Normalize(Log[l].p)
DoMove == Is("move") /\ Move(Log[l].p, Log[l].q)
DoMoveAssign == Is("assign") /\ MoveAssign(Log[l].p, Log[l].q)
DoDestroy == Is("destroy") /\ Destroy(Log[l].p)
DoReset == Is("reset") /\ (\A p \in Slots : ~Alive(p)) /\ bufs' = <<>> /\ gone' = 0 /\ UNCHANGED plans
(* Everything observable, after each operation *)
Matches(b, sh, re, im) == ShapeSize(sh) = ShapeSize(bufs[b].shape) /\ (bufs[b].px = Garbage \/ bufs[b].px = Pix(re, im))
DoObs ==
   /\ Is("obs") /\ Same
   /\ Ev.gone = gone
   /\ {Ev.plans[x].p : x \in DOMAIN Ev.plans} = {p \in Slots : Alive(p)}
   /\ \A x \in DOMAIN Ev.plans : LET e == Ev.plans[x]
                                     pl == plans[e.p]
                                 IN /\ e.shape = pl.shape /\ e.factor = ShapeSize(pl.shape)
                                    /\ e.owni = pl.oi /\ e.owno = pl.oo
                                    /\ e.ish = InShapeOf(pl.kind, pl.shape) /\ e.osh = OutShapeOf(pl.kind, pl.shape)
                                    /\ Matches(pl.ib, e.ish, e.ire, e.iim) /\ Matches(pl.ob, e.osh, e.ore, e.oim)
   /\ \A x, y \in DOMAIN Ev.plans :
        LET a == Ev.plans[x] b == Ev.plans[y] pa == plans[a.p] pb == plans[b.p]
        IN /\ (a.iaddr = b.iaddr) = (pa.ib = pb.ib) /\ (a.oaddr = b.oaddr) = (pa.ob = pb.ob)
           /\ (a.iaddr = b.oaddr) = (pa.ib = pb.ob)
(* Any lengths up to 8: fixed point, within the accuracy of the constants *)
Near(got, want, tol) == /\ Len(got) = Len(want)
                        /\ \A i \in 1..Len(got) : Abs(got[i][1] - want[i][1]) <= tol /\ Abs(got[i][2] - want[i][2]) <= tol
RECURSIVE Weight(_, _)
Weight(x, n) == IF n = 0 THEN 0 ELSE Weight(x, n - 1) + Abs(x[n][1]) + Abs(x[n][2])
DoDft ==
   /\ Is("dft") /\ Same
   /\ LET x == Pix(Ev.re, Ev.im)
          n == IF Ev.norm THEN ShapeSize(Ev.shape) ELSE 1
          want == Computes(Fixed, Ev.kind, Ev.shape, x)
          got == Pix(Ev.ore, Ev.oim)
      IN /\ want # Garbage
         /\ Ev.oshape = OutShapeOf(Ev.kind, Ev.shape)
         /\ Near([i \in 1..Len(got) |-> <<n * got[i][1], n * got[i][2]>>], want, 2 * Weight(x, Len(x)) + 2 * n)
         /\ Ev.kept
         /\ Ev.round => Ev.bre = Ev.re /\ Ev.bim = Ev.im
DoEnd == Is("end") /\ Same
Next == DoCreate \/ DoInvert \/ DoCompose \/ DoFill \/ DoSet \/ DoTransform \/ DoNormalize \/ DoMove \/ DoMoveAssign
        \/ DoDestroy \/ DoReset \/ DoObs \/ DoDft \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
