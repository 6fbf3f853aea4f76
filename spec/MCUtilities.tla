---------------------------- MODULE MCUtilities ----------------------------
(* Exceptions which are made, copied, completed and thrown, and tuples of iterators which advance together:
   what an object says is its own history, whatever happens to the others. *)
EXTENDS Utilities, FiniteSets
CONSTANTS Slots, Lines, MaxIndent, MaxOps, Length
VARIABLES msg,    \* slot -> message ("" when there is none)
          hist,   \* slot -> sequence of what made it
          ops, pos, seqs
vars == <<msg, hist, ops, pos, seqs>>
None == ""
Init == /\ msg = [s \in Slots |-> None] /\ hist = [s \in Slots |-> <<>>] /\ ops = 0
        /\ pos \in [1..2 -> 0..1] /\ seqs = <<[i \in 1..Length |-> i], [i \in 1..Length |-> 10 * i]>>
Make(s, t) == /\ msg' = [msg EXCEPT ![s] = Message("p", t)] /\ hist' = [hist EXCEPT ![s] = <<<<t, -1>>>>] /\ UNCHANGED <<pos, seqs>>
Copy(s, r) == /\ msg[s] # None /\ msg' = [msg EXCEPT ![r] = msg[s]] /\ hist' = [hist EXCEPT ![r] = hist[s]] /\ UNCHANGED <<pos, seqs>>
Complete(s, t, n) == /\ msg[s] # None /\ msg' = [msg EXCEPT ![s] = Appended(@, t, n)] /\ hist' = [hist EXCEPT ![s] = @ \o <<<<t, n>>>>]
                   /\ UNCHANGED <<pos, seqs>>
Apply(step) == /\ \A i \in 1..2 : pos[i] < Length /\ pos' = Advanced(pos) /\ seqs' = Written(seqs, pos, step) /\ UNCHANGED <<msg, hist>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E s \in Slots, t \in Lines : Make(s, t)
           \/ \E s, r \in Slots : s # r /\ Copy(s, r)
           \/ \E s \in Slots, t \in Lines, n \in 0..MaxIndent : Complete(s, t, n)
           \/ \E step \in {-1, 2} : Apply(step)
Spec == Init /\ [][Next]_vars
RECURSIVE Told(_)
Told(h) == LET n == Len(h) IN IF n = 0 THEN None ELSE IF n = 1 THEN Message("p", h[1][1])
                               ELSE Appended(Told(SubSeq(h, 1, n - 1)), h[n][1], h[n][2])
Faithful == \A s \in Slots : msg[s] = Told(hist[s])
(* the two iterators stay at the same distance; elements behind are the only ones which may have changed *)
Together == \A i \in 1..2 : \A k \in 1..Length : k > pos[i] => seqs[i][k] = (IF i = 1 THEN k ELSE 10 * k)
Distance == [][pos'[1] - pos'[2] = pos[1] - pos[2]]_vars
=============================================================================
