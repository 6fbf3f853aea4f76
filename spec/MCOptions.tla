----------------------------- MODULE MCOptions -----------------------------
(* Laws of parsing, for every short command line and several declarations *)
EXTENDS Options
CONSTANT MaxToks
VARIABLES ds, ts
D(k, t, d, i) == [kind |-> k, type |-> t, def |-> d, imp |-> i]
Declarations == {
   <<D("pos", "int", "none", "none"), D("flag", "bool", "none", "none"), D("named", "int", "none", "none")>>,
   <<D("pos", "int", "0", "none"), D("posmulti", "string", "none", "none"), D("flag", "bool", "none", "none")>>,
   <<D("named", "bool", "1", "none"), D("implicit", "int", "0", "42"), D("pos", "string", "abc", "none")>>,
   <<D("required", "int", "none", "none"), D("multi", "int", "none", "none"), D("pos", "int", "none", "none")>> }
T(t, o, v) == [t |-> t, o |-> o, v |-> v]
Tokens == {T("val", 1, "1"), T("val", 3, "0"), T("val", 2, "1"), T("bare", 2, ""), T("pos", 0, "1"), T("pos", 0, "x"),
           T("sep", 0, ""), T("unknown", 0, "")}
Init == ds \in Declarations /\ ts = <<>>
Next == Len(ts) < MaxToks /\ \E t \in Tokens : ts' = Append(ts, t) /\ UNCHANGED ds
Spec == Init /\ [][Next]_<<ds, ts>>
O == DOMAIN ds
(* No list is open *)
NoList == \A i \in DOMAIN ts : ts[i].t = "val" => ~Multi(ds[ts[i].o])
NoSep == \A i \in DOMAIN ts : ts[i].t # "sep"
(* Unknown options are always errors, and errors are never cured by what follows but for the separator, or by missing required options *)
Unknown == (\E i \in DOMAIN ts : ts[i].t = "unknown") => Fails(ds, ts)
Defaults == ~Fails(ds, ts) => \A o \in O : Parsed(ds, ts).occ[o] = <<>> =>
   Value(ds, ts, o) = (IF ds[o].kind = "flag" THEN <<"0">> ELSE IF ds[o].def = None THEN <<>> ELSE <<Canon(ds[o].type, ds[o].def)>>)
(* Flags take nothing: inserting one anywhere before the separator changes no other option, unless it closes a list *)
Insert(k, t) == SubSeq(ts, 1, k) \o <<t>> \o SubSeq(ts, k + 1, Len(ts))
Flags == {o \in O : ds[o].kind = "flag"}
FlagsTakeNothing == (~Fails(ds, ts) /\ NoSep /\ NoList) =>
   \A f \in Flags : Parsed(ds, ts).occ[f] = <<>> => \A k \in 0..Len(ts) :
      LET us == Insert(k, T("bare", f, "")) IN
      /\ ~Fails(ds, us) /\ Value(ds, us, f) = <<"1">>
      /\ \A o \in O \ {f} : Value(ds, us, o) = Value(ds, ts, o)
(* Options with values may be moved anywhere among positional arguments *)
Swap(k) == [i \in DOMAIN ts |-> IF i = k THEN ts[k + 1] ELSE IF i = k + 1 THEN ts[k] ELSE ts[i]]
OrderFree == (~Fails(ds, ts) /\ NoSep /\ NoList) =>
   \A k \in 1..(Len(ts) - 1) : (ts[k].t = "val" /\ ts[k + 1].t = "pos" /\ ~Positional(ds[ts[k].o])) =>
      ~Fails(ds, Swap(k)) /\ \A o \in O : Value(ds, Swap(k), o) = Value(ds, ts, o)
(* Every positional value is given to one option *)
NothingLost == ~Fails(ds, ts) =>
   Cardinality({i \in DOMAIN ts : ts[i].t = "pos"}) + Cardinality({i \in DOMAIN ts : ts[i].t \in {"val", "bare"}})
   = SumTo([o \in O |-> Len(Parsed(ds, ts).occ[o])], Len(ds))
=============================================================================
