--------------------------- MODULE TraceUtilities ---------------------------
(* Functions applied to tuples, sequences and iterators, texts and exceptions of the implementation, against Utilities. *)
EXTENDS Utilities, TraceLog
VARIABLES seqs, pos,   \* tuple of iterators
          msg          \* slot -> message of its exception
vars == <<seqs, pos, msg, l>>
Init == seqs = <<>> /\ pos = <<>> /\ msg = <<>> /\ l = 1
Same == UNCHANGED <<seqs, pos, msg>>
DoForeach == /\ Is("foreach") /\ Same /\ Ev.got = Ev.before /\ Ev.after = AfterEach(Ev.before, Ev.step)
DoTransform == /\ Is("transform") /\ Same /\ Ev.got = Ev.before /\ Ev.out = ReturnedEach(Ev.before, 0)
DoRemembered == Is("remembered") /\ Same /\ Ev.got = Ev.in
DoAs == Is("as") /\ Same /\ Ev.out = Ev.in
DoApplied == /\ Is("applied") /\ Same /\ Ev.got = Ev.before /\ Ev.after = AfterEach(Ev.before, Ev.step)
             /\ Ev.out = Ev.after[2] /\ Ev.reference
DoArity == Is("arity") /\ Same /\ Ev.out = Ev.in
DoTraits == Is("traits") /\ Same /\ Ev.tuple /\ Ev.iterable /\ ~Ev.notTuple /\ ~Ev.notIterable
DoIterators == Is("iterators") /\ seqs' = Log[l].seqs /\ pos' = Log[l].pos /\ UNCHANGED msg
DoAdvance == /\ Is("advance") /\ UNCHANGED msg
             /\ Log[l].got = Pointed(seqs, pos)
             /\ LET new == Pointed(Written(seqs, pos, Log[l].step), pos) IN Log[l].out = new[1] + 2 * new[2] + 3 * new[3]
             /\ pos' = Advanced(pos) /\ seqs' = Written(seqs, pos, Log[l].step)
             /\ Log[l].pos = pos' /\ Log[l].seqs = seqs'
DoPointers == /\ Is("pointers") /\ Same
              /\ LET here == <<Ev.k, Ev.k + 1>>
                     got == Pointed(<<Ev.seq, Ev.seq>>, here) IN Ev.out = got[1] + 100 * got[2] /\ Ev.pos = Advanced(here)
DoSerialize == Is("serialize") /\ Same /\ Ev.out = Joined(Ev.texts)
Messages(m) == msg' = m /\ UNCHANGED <<seqs, pos>> /\ Log[l].messages = m
DoSlots == Is("slots") /\ msg' = <<"", "", "">> /\ UNCHANGED <<seqs, pos>>
DoMake == Is("make") /\ Messages([msg EXCEPT ![Log[l].slot + 1] = Message(Log[l].prefix, Log[l].text)])
DoAppend == Is("append") /\ Messages([msg EXCEPT ![Log[l].slot + 1] =
               LET once == Appended(@, Log[l].line, Log[l].indent) IN IF Log[l].twice THEN Appended(once, Log[l].line, 1) ELSE once])
DoCopy == Is("copy") /\ Messages([msg EXCEPT ![Log[l].to + 1] = msg[Log[l].slot + 1]])
DoThrown == Is("thrown") /\ Messages(msg) /\ Ev.seen = Appended(msg[Ev.slot + 1], Ev.line, 2)
Printed(x) == IF Ev.type = "int" THEN ToString(x) ELSE Quarters(x)
Rendered(x) == IF Ev.type = "real" THEN RealText(x) ELSE Printed(x)
DoBounds == /\ Is("bounds") /\ Same
            /\ Ev.thrown = ~(IF Ev.type = "real" THEN RealWithin(Ev.value, Ev.lo, Ev.hi) ELSE Ev.lo <= Ev.value /\ Ev.value <= Ev.hi)
            /\ Ev.text = IF Ev.thrown THEN OutOfBounds(Ev.name, Rendered(Ev.value), Rendered(Ev.lo), Rendered(Ev.hi)) ELSE ""
DoSize == Is("size") /\ Same /\ Ev.thrown = (Ev.in # Ev.ref) /\ Ev.text = IF Ev.thrown THEN WrongSize(Ev.in, Ev.ref) ELSE ""
DoNull == Is("null") /\ Same /\ Ev.thrown = Ev.null /\ Ev.text = IF Ev.null THEN Message("Null pointer error", Ev.message) ELSE ""
DoAligned == /\ Is("aligned") /\ Same /\ Ev.thrown = (Ev.offset % Ev.as # 0)
             /\ Ev.text = IF Ev.thrown THEN Message("Alignment error", Ev.address \o " is not " \o ToString(Ev.as) \o " byte-aligned.") ELSE ""
DoNullAligned == Is("nullAligned") /\ Same /\ Ev.thrown
DoEnd == Is("end") /\ Same
Next == DoForeach \/ DoTransform \/ DoAs \/ DoRemembered \/ DoApplied \/ DoArity \/ DoTraits \/ DoIterators \/ DoAdvance \/ DoPointers \/ DoSerialize
        \/ DoSlots \/ DoMake \/ DoAppend \/ DoCopy \/ DoThrown \/ DoBounds \/ DoSize \/ DoNull \/ DoAligned \/ DoNullAligned \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
