--------------------------- MODULE TraceOptions ---------------------------
EXTENDS Options, TraceLog
VARIABLES decls,  \* slot -> declarations
          known,  \* slot -> declarations at that time
          toks    \* slot -> last command line, when it was valid; <<"?">> unknown
vars == <<decls, known, toks, l>>
Slots == 0..2
Unparsed == <<[t |-> "none", o |-> 0, v |-> ""]>>
Init == decls = [s \in Slots |-> <<>>] /\ known = decls /\ toks = [s \in Slots |-> Unparsed] /\ l = 1
Same == UNCHANGED <<decls, known, toks>>
DoNew == Is("new") /\ decls' = [decls EXCEPT ![Log[l].s] = <<>>] /\ known' = [known EXCEPT ![Log[l].s] = <<>>] /\ toks' = [toks EXCEPT ![Log[l].s] = Unparsed]
DoDeclare == /\ Is("declare") /\ UNCHANGED <<known, toks>>
             /\ decls' = [decls EXCEPT ![Log[l].s] = Append(@, [kind |-> Log[l].kind, type |-> Log[l].type, def |-> Log[l].def, imp |-> Log[l].imp])]
DoCopy == Is("copy") /\ decls' = [decls EXCEPT ![Log[l].to] = decls[Log[l].from]] /\ known' = [known EXCEPT ![Log[l].to] = known[Log[l].from]] /\ toks' = [toks EXCEPT ![Log[l].to] = toks[Log[l].from]]
DoParse == /\ Is("parse") /\ UNCHANGED decls /\ known' = [known EXCEPT ![Log[l].s] = decls[Log[l].s]]
           /\ Log[l].threw = Fails(decls[Log[l].s], Log[l].toks)
           /\ toks' = [toks EXCEPT ![Log[l].s] = IF Log[l].threw THEN Unparsed ELSE Log[l].toks]
(* Nothing is said after an error, until the next command line; options declared since are not set *)
Values(s, e) == toks[s] = Unparsed \/
   /\ Len(e.has) = Len(decls[s])
   /\ \A o \in DOMAIN known[s] : /\ e.has[o] = (IF Has(known[s], toks[s], o) THEN 1 ELSE 0)
                                 /\ e.vals[o] = Value(known[s], toks[s], o)
   /\ \A o \in DOMAIN decls[s] \ DOMAIN known[s] : e.has[o] = 0
   /\ ~e.ghost /\ e.wrong
DoObs == Is("obs") /\ Same /\ Values(Ev.s, Ev)
(* The same command line through the exported pair of descriptions *)
DoPair == Is("pair") /\ Same /\ Ev.threw = Fails(decls[Ev.s], Ev.toks)
          /\ (~Ev.threw => \A o \in DOMAIN decls[Ev.s] : Ev.vals[o] = Value(decls[Ev.s], Ev.toks, o))
DoHelp == /\ Is("help") /\ Same /\ Ev.lines = Help(Ev.about)
          /\ Len(Ev.listed) = Len(decls[Ev.s]) /\ \A o \in DOMAIN Ev.listed : Ev.listed[o] = 1
DoEnd == Is("end") /\ Same
Next == DoNew \/ DoDeclare \/ DoCopy \/ DoParse \/ DoObs \/ DoPair \/ DoHelp \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
