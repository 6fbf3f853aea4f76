--------------------------- MODULE TracePixelwise ---------------------------
(* Validates logs of element-wise operations (C09) and of filling and generation (C10). *)
EXTENDS Pixelwise, TraceLog
vars == <<objs, l>>
Init == objs = <<>> /\ l = 1
Same == UNCHANGED objs
Begin == Is("begin") /\ objs' = Ev.objs
(* every object is observed after every operation *)
Obs == Log[l].obs = objs'
Lookup(a, b) == LET T == Ev.table
                    K == {k \in 1..Len(T) : T[k][1] = a /\ T[k][2] = b} IN T[CHOOSE k \in K : TRUE][3]
F(a, b) == IF Ev.t \in {"int", "u8", "u16"} /\ Ev.f \in Interpreted THEN IntFun(Ev.t, Ev.f, a, b) ELSE Lookup(a, b)
(* operands: container name > 0, or 0 for a scalar (ignored if there is no operand), or -1 for values of another type *)
Opd(o, s, i) == IF o > 0 THEN objs[o][i] ELSE IF o = 0 THEN s ELSE s[i]
LL(i) == Opd(Ev.x, Ev.xs, i)
RR(i) == Opd(Ev.y, Ev.ys, i)
DoIn == /\ Is("in") /\ Ev.ret /\ InPlace(Ev.x, F, LL, RR) /\ Obs
DoNew == /\ Is("new") /\ NewInstance(Ev.z, Ev.n, F, LL, RR) /\ Obs
(* V++ returns the former value and modifies the operand *)
DoPost == /\ Is("post") /\ objs' = PutP([objs EXCEPT ![Ev.x] = Map2(F, Len(objs[Ev.x]), LL, RR)], Ev.z, objs[Ev.x]) /\ Obs
DoFill == Is("fill") /\ Fill(Ev.x, Ev.v) /\ Obs /\ Ev.ret
DoRange == Is("range") /\ Range(Ev.x, Ev.min, Ev.step) /\ Obs /\ Ev.ret
DoLinInt == /\ Is("linint") /\ LinspaceInt(Ev.obs[Ev.x], Ev.min, Ev.max, Len(objs[Ev.x])) /\ Ev.ret
            /\ objs' = [objs EXCEPT ![Ev.x] = Ev.obs[Ev.x]] /\ Obs
DoLinReal == /\ Is("linreal") /\ Same /\ Ev.ret
             /\ LinspaceScaled(Ev.scaled, Ev.min, Ev.max, Ev.n)
             /\ Ev.n > 1 => Ev.first /\ Ev.last
             /\ Ev.n = 1 => Ev.first \/ Ev.last
DoGen == /\ Is("gen") /\ Ev.ret
         /\ CallsOK(Len(objs[Ev.x]), [j \in 1..Len(Ev.ins) |-> objs[Ev.ins[j]]], Ev.calls)
         /\ Generate(Ev.x, Ev.rets) /\ Obs
DoExtrema == /\ Is("extrema") /\ Same /\ Obs
             /\ IsFirstMin(objs[Ev.x], Ev.min + 1) /\ IsFirstMax(objs[Ev.x], Ev.max + 1)
             /\ Ev.mm1 = Ev.min /\ Ev.mm2 = Ev.max
DoPut == Is("put") /\ objs' = [objs EXCEPT ![Ev.x] = Ev.vals] /\ Obs
DoEnd == Is("end") /\ Same
Next == Begin \/ DoIn \/ DoNew \/ DoPost \/ DoFill \/ DoRange \/ DoLinInt \/ DoLinReal \/ DoGen \/ DoExtrema \/ DoPut \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
