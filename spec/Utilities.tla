------------------------------ MODULE Utilities ------------------------------
(* Utilities the rest of the library leans on: functions applied to the elements of tuples and sequences, tuples of
   iterators, serialization, and the messages of exceptions. *)
EXTENDS Integers, Sequences, TLC

(* A function with a memory: it adds `step` to the element it is given (if it can), and returns the new value
   times 10 plus the rank of the call. *)
Changed(x, step) == x + step
Returned(x, step, rank) == 10 * Changed(x, step) + rank

(* Elements after the function was applied to each, in order; what it was given; what it returned *)
AfterEach(seq, step) == [i \in DOMAIN seq |-> Changed(seq[i], step)]
ReturnedEach(seq, step) == [i \in DOMAIN seq |-> Returned(seq[i], step, i)]

(* Iterators: positions (from 0) in sequences. The function gets the pointed elements, then each iterator goes one further *)
Pointed(seqs, pos) == [i \in DOMAIN seqs |-> seqs[i][pos[i] + 1]]
Advanced(pos) == [i \in DOMAIN pos |-> pos[i] + 1]
Written(seqs, pos, step) == [i \in DOMAIN seqs |-> [seqs[i] EXCEPT ![pos[i] + 1] = Changed(@, step)]]

(* Texts separated by a comma and a space *)
RECURSIVE Joined(_)
Joined(texts) == IF texts = <<>> THEN "" ELSE IF Len(texts) = 1 THEN texts[1]
                 ELSE texts[1] \o ", " \o Joined(Tail(texts))

(* Messages *)
Message(prefix, text) == prefix \o ": " \o text
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
Appended(message, line, indent) == message \o "\n" \o Spaces(indent) \o line
OutOfBounds(name, value, lo, hi) ==
  Message("Out of bounds error", name \o ": " \o value \o " not in [" \o lo \o ", " \o hi \o "]")
WrongSize(in, ref) == Message("Size error", "Expected " \o ToString(ref) \o ", got " \o ToString(in))
(* quarters as the standard library prints them *)
Quarters(q) == (IF q < 0 THEN "-" ELSE "") \o ToString((IF q < 0 THEN -q ELSE q) \div 4) \o "."
               \o (<<"000000", "250000", "500000", "750000">>)[((IF q < 0 THEN -q ELSE q) % 4) + 1]
(* reals: quarters, infinities, and not-a-number, which nothing contains and which bounds nothing *)
Infinite == 1000
NotANumber == 1001
RealText(q) == CASE q = NotANumber -> "nan" [] q = Infinite -> "inf" [] q = -Infinite -> "-inf" [] OTHER -> Quarters(q)
RealWithin(q, lo, hi) == q # NotANumber /\ lo # NotANumber /\ hi # NotANumber /\ lo <= q /\ q <= hi
=============================================================================
