---------------------------- MODULE MCPixelwise ----------------------------
EXTENDS Pixelwise
VARIABLES last, n
V == {-3, -1, 0, 2}
Init == objs = [x \in {1, 2} |-> <<0, 2>>] /\ last = <<"init">> /\ n = 0
Ops == {"+", "-", "*", "/", "%", "max", "min"}
Small == \A x \in DOMAIN objs : \A i \in DOMAIN objs[x] : Mag(objs[x][i]) <= 40
Safe(f, y) == f \in {"/", "%"} => \A i \in DOMAIN objs[y] : objs[y][i] # 0
Next == n < 3 /\ n' = n + 1 /\ (
        \/ \E f \in Ops, x \in {1, 2}, y \in {1, 2} : Safe(f, y) /\
             InPlace(x, LAMBDA a, b : IntFun("int", f, a, b), LAMBDA i : objs[x][i], LAMBDA i : objs[y][i])
             /\ last' = <<"in", f, x, y, objs>>
        \/ \E f \in Ops, x \in {1, 2}, y \in {1, 2} : Safe(f, y) /\
             NewInstance(3, 2, LAMBDA a, b : IntFun("int", f, a, b), LAMBDA i : objs[x][i], LAMBDA i : objs[y][i])
             /\ last' = <<"new", f, x, y, objs>>
        \/ \E x \in {1, 2}, v \in V : Fill(x, v) /\ last' = <<"fill", v, x>>
        \/ \E x \in {1, 2}, m \in V, s \in {-1, 2} : Range(x, m, s) /\ last' = <<"range">>)
Spec == Init /\ [][Next]_<<objs, last, n>>
Bound == Small
(* the new-instance form equals the in-place form applied to a copy, and modifies no operand *)
FormsAgree == last[1] = "new" =>
   LET o == last[5] IN /\ objs[1] = o[1] /\ objs[2] = o[2]
      /\ objs[3] = [i \in 1..2 |-> IntFun("int", last[2], o[last[3]][i], o[last[4]][i])]
(* (a / b) * b + a % b = a *)
ASSUME DivMod == \A a \in -7..7, b \in (-3..3) \ {0} : TruncDiv(a, b) * b + TruncMod(a, b) = a /\ Mag(TruncMod(a, b)) < Mag(b)
============================================================================
