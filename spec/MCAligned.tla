----------------------------- MODULE MCAligned -----------------------------
EXTENDS Aligned
CONSTANTS NBufs, Depth, Gen, Aligns, Sizes
VARIABLES hist, n
S(x) == ToString(x)
B == 1..NBufs
Init == /\ blocks = <<>> /\ frees = 0
        /\ ext = [u \in 1..2 |-> IF u = 1 THEN [vals |-> <<1, 2, 3>>, mod |-> 0] ELSE [vals |-> <<4, 5>>, mod |-> 8]]
        /\ buf = [s \in B |-> NoBuf] /\ hist = "" /\ n = 0
H(x) == n < Depth /\ n' = n + 1 /\ hist' = IF Gen THEN hist \o ";" \o x ELSE x
Mk2(k) == [i \in 1..k |-> 10 * n + i]
Next == \/ \E s \in B, k \in Sizes, a \in Aligns : H("alloc " \o S(s) \o " " \o S(k) \o " " \o S(a)) /\ Alloc(s, Mk2(k), a)
        \/ \E s \in B, u \in 1..2, a \in Aligns : H("wrap " \o S(s) \o " " \o S(u) \o " " \o S(a)) /\ Wrap(s, u, a)
        \/ \E d \in B, s \in B : \/ H("copy " \o S(d) \o " " \o S(s)) /\ Copy(d, s, TRUE)
                                 \/ H("move " \o S(d) \o " " \o S(s)) /\ Move(d, s)
                                 \/ H("assign " \o S(d) \o " " \o S(s)) /\ Assign(d, s, FALSE)
                                 \/ H("massign " \o S(d) \o " " \o S(s)) /\ MoveAssign(d, s)
        \/ \E s \in B : \/ H("release " \o S(s)) /\ Release(s)
                        \/ H("reset " \o S(s)) /\ Reset(s)
                        \/ H("destroy " \o S(s)) /\ Destroy(s)
                        \/ H("write " \o S(s) \o " 1") /\ Write(s, 1, 1000 + n)
        \/ \E b \in DOMAIN blocks : H("ufree " \o S(b)) /\ UserFree(b)
        \/ \E u \in 1..2 : H("ewrite " \o S(u) \o " 1") /\ ExtWrite(u, 1, 1000 + n)
Spec == Init /\ [][Next]_<<avars, hist, n>>
Emit == (Gen /\ n = Depth) => PrintT("SCRIPT " \o hist)
MCView == <<avars, n>>
(* Buffers only free what they own, and never twice: each free removes exactly one owned block *)
FreeDiscipline == [][frees' - frees \in {0, 1} /\ (frees' = frees + 1 =>
                     \E b \in DOMAIN blocks : blocks[b].st = "owned" /\ \E s \in B : buf[s].owns /\ buf[s].id = b)]_<<avars, hist, n>>
============================================================================
