-------------------------- MODULE TraceContainers --------------------------
(* Validates logs of constructions, comparisons and text output (C08, C26). *)
EXTENDS Containers, TraceLog
vars == <<objs, l>>
Init == objs = <<>> /\ l = 1
Same == UNCHANGED objs
Reset == Is("reset") /\ objs' = <<>>
(* given: the values passed; a construction which throws creates nothing *)
DoConstruct == /\ Is("ctor")
               /\ Ev.threw = ~Accepts(Ev.shape, Ev.given, Ev.cap)
               /\ IF Ev.threw THEN Same
                  ELSE /\ Construct(Ev.id, Ev.shape, Ev.given)
                       /\ Ev.oshape = Ev.shape /\ Ev.osize = ShapeSize(Ev.shape) /\ Ev.ovals = Ev.given /\ Ev.odim = Len(Ev.shape)
(* built from a shape only: the elements are unspecified but there are as many as specified *)
DoSized == /\ Is("sized") /\ Construct(Ev.id, Ev.shape, Ev.ovals)
           /\ Ev.oshape = Ev.shape /\ Ev.osize = ShapeSize(Ev.shape) /\ Ev.odim = Len(Ev.shape)
DoPut == Is("put") /\ Put(Ev.id, Ev.k, Ev.v)
DoEqual == Is("eq") /\ Same /\ Ev.eq = Equal(Ev.a, Ev.b) /\ Ev.ne = ~Equal(Ev.a, Ev.b)
           /\ Ev.avals = objs[Ev.a].vals /\ Ev.bvals = objs[Ev.b].vals
DoEmpty == Is("empty") /\ Same /\ Ev.out = IsEmpty(Ev.id)
DoText == Is("text") /\ Same /\ Ev.out = Text(objs[Ev.id].vals) /\ Ev.sameStream
DoCodes == Is("codes") /\ Construct(Ev.id, Ev.shape, Ev.given)
DoOddEqual == Is("oddEq") /\ Same /\ Ev.eq = OddEqual(Ev.a, Ev.b) /\ Ev.ne = ~Ev.eq
(* elements are written as they are alone, with the state of the stream, which stays the same *)
DoFormat == /\ Is("format") /\ Same /\ Ev.flags /\ Ev.after = Ev.precision /\ Ev.width = 0
            /\ \A i \in DOMAIN Ev.outs : Ev.outs[i] = Written(Ev.words)
DoEnd == Is("end") /\ Same
Next == Reset \/ DoConstruct \/ DoSized \/ DoPut \/ DoEqual \/ DoEmpty \/ DoText \/ DoCodes \/ DoOddEqual \/ DoFormat \/ DoEnd
Spec == Init /\ [][Next]_vars
============================================================================
