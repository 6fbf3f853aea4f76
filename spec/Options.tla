------------------------------ MODULE Options ------------------------------
(* Command lines. Declarations: [kind, type, def, imp] with kinds
     pos, posmulti (takes any number), named, required, implicit, multi (named, any number), flag
   and def, imp texts or "none".
   Tokens: [t, o, v]: "val" an option with its value (any spelling), "bare" an option without value,
   "pos" a positional value, "sep" the end of options, "unknown" an undeclared option. *)
EXTENDS Shapes

None == "none"
(* Values as texts: what they mean for each type *)
Ints == [x \in {"0", "1", "-5", "42", "123456"} |-> x]
Reals == [x \in {"0", "1", "-5", "42", "1.5", "-2.25", "1e3"} |-> IF x = "1e3" THEN "1000" ELSE x]
Bools == [x \in {"0", "1", "true", "false", "yes", "no", "on", "off"} |->
            IF x \in {"1", "true", "yes", "on"} THEN "1" ELSE "0"]
Chars == [x \in {"0", "1", "x"} |-> x]
Unsigneds == [x \in {"0", "1", "42", "123456"} |-> x]
Texts == [x \in {"0", "1", "-5", "42", "123456", "1.5", "-2.25", "1e3", "true", "false", "yes", "no", "on", "off",
                 "x", "abc", "k=v", "a:b", "two words", "3z"} |-> x]
Table(type) == CASE type = "int" -> Ints [] type = "double" -> Reals [] type = "bool" -> Bools [] type = "char" -> Chars
                 [] type = "uint" -> Unsigneds [] OTHER -> Texts
IllTyped(type, v) == v \notin DOMAIN Table(type)
Canon(type, v) == Table(type)[v]

Multi(d) == d.kind \in {"multi", "posmulti"}
Positional(d) == d.kind \in {"pos", "posmulti"}

(* Positional values go to positional options in the order of declaration *)
PosOpts(ds) == SelectSeq([o \in 1..Len(ds) |-> o], LAMBDA o : Positional(ds[o]))
Target(ds, i) == LET p == PosOpts(ds)
                     m == {x \in 1..Len(p) : ds[p[x]].kind = "posmulti"}
                 IN IF i <= Len(p) THEN p[i] ELSE IF m # {} THEN p[Len(p)] ELSE 0

(* Reading tokens one by one: occ = occurrences of each option, npos = number of positional values,
   open = the multiple option which takes the next values (0: none), sep = after the separator *)
Start(ds) == [occ |-> [o \in DOMAIN ds |-> <<>>], npos |-> 0, open |-> 0, sep |-> FALSE, err |-> FALSE]
Give(r, o, v) == IF o = 0 THEN [r EXCEPT !.err = TRUE] ELSE [r EXCEPT !.occ[o] = Append(@, v)]
Read(ds, r, t) ==
   CASE t.t = "unknown" -> [r EXCEPT !.err = TRUE]
     [] t.t = "sep" -> [r EXCEPT !.sep = TRUE, !.open = 0]
     [] t.t = "val" -> [r EXCEPT !.occ[t.o] = Append(@, t.v), !.open = IF Multi(ds[t.o]) THEN t.o ELSE 0,
                                 !.err = @ \/ ds[t.o].kind = "flag"]
     [] t.t = "bare" -> CASE ds[t.o].kind = "flag" -> [r EXCEPT !.occ[t.o] = Append(@, "1"), !.open = 0]
                          [] ds[t.o].kind = "implicit" -> [r EXCEPT !.occ[t.o] = Append(@, ds[t.o].imp), !.open = 0]
                          [] OTHER -> [r EXCEPT !.err = TRUE]
     [] OTHER -> IF r.open # 0 /\ ~r.sep THEN [r EXCEPT !.occ[r.open] = Append(@, t.v)]
                 ELSE Give([r EXCEPT !.npos = @ + 1], Target(ds, r.npos + 1), t.v)
RECURSIVE ReadAll(_, _, _, _)
ReadAll(ds, r, ts, k) == IF k > Len(ts) THEN r ELSE ReadAll(ds, Read(ds, r, ts[k]), ts, k + 1)
Parsed(ds, ts) == ReadAll(ds, Start(ds), ts, 1)
Fails(ds, ts) ==
   LET r == Parsed(ds, ts)
   IN \/ r.err
      \/ \E o \in DOMAIN ds : \/ ~Multi(ds[o]) /\ Len(r.occ[o]) > 1
                              \/ ds[o].kind = "required" /\ r.occ[o] = <<>>
                              \/ ds[o].kind # "flag" /\ \E i \in DOMAIN r.occ[o] : IllTyped(ds[o].type, r.occ[o][i])
(* Values as canonical texts; an option without value nor default has none *)
Value(ds, ts, o) ==
   LET r == Parsed(ds, ts)
   IN IF ds[o].kind = "flag" THEN (IF r.occ[o] = <<>> THEN <<"0">> ELSE <<"1">>)
      ELSE IF r.occ[o] # <<>> THEN [i \in DOMAIN r.occ[o] |-> Canon(ds[o].type, r.occ[o][i])]
      ELSE IF ds[o].def # None THEN <<Canon(ds[o].type, ds[o].def)>>
      ELSE <<>>
(* The first lines of the help *)
Help(about) == IF about = "" THEN <<"Options:">> ELSE <<about, "", "Options:">>
Has(ds, ts, o) == Value(ds, ts, o) # <<>>
=============================================================================
