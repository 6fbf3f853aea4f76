------------------------------- MODULE Files -------------------------------
(* Image files. A disk maps names to "none", "bad" (not an image) or an image [type, shape, pix];
   pixels are decimal texts. Sessions only hold a name. *)
EXTENDS Shapes

(* Texts by increasing value, and the types which have them all from lo to hi *)
Scale == <<"-9223372036854775808", "-2147483648", "-32768", "-300", "-128", "-1", "0", "1", "7", "127", "128", "200", "255", "300",
           "32767", "32768", "65535", "2147483647", "2147483648", "4294967295", "9223372036854775807", "18446744073709551615">>
Place(v) == IF \E i \in DOMAIN Scale : Scale[i] = v THEN CHOOSE i \in DOMAIN Scale : Scale[i] = v ELSE 0
Span(type) == CASE type = "schar" -> <<"-128", "127">> [] type = "uchar" -> <<"0", "255">>
                 [] type = "short" -> <<"-32768", "32767">> [] type = "ushort" -> <<"0", "65535">>
                 [] type = "int" -> <<"-2147483648", "2147483647">> [] type = "uint" -> <<"0", "4294967295">>
                 [] type \in {"long", "llong"} -> <<"-9223372036854775808", "9223372036854775807">>
                 [] type \in {"ulong", "ullong"} -> <<"0", "18446744073709551615">>
                 [] OTHER -> <<"none", "none">>
Integral(type) == Span(type)[1] # "none"
Fits(v, type) == Place(v) >= Place(Span(type)[1]) /\ Place(v) <= Place(Span(type)[2])

Image(type, shape, pix) == [st |-> "image", type |-> type, shape |-> shape, pix |-> pix]
Nothing == [st |-> "none", type |-> "", shape |-> <<>>, pix |-> <<>>]
Garbage == [st |-> "bad", type |-> "", shape |-> <<>>, pix |-> <<>>]

(* Creating is refused where something exists or where there is no directory *)
CanWrite(disk, f, lost) == disk[f].st = "none" /\ f \notin lost
AfterNoSpace(disk, f, lost) == IF CanWrite(disk, f, lost) THEN [disk EXCEPT ![f] = Garbage] ELSE disk
CanRead(disk, f, type, dim) ==
   /\ disk[f].st = "image"
   /\ dim \in {-1, Len(disk[f].shape)}
   /\ disk[f].type = type \/ \A i \in DOMAIN disk[f].pix : Fits(disk[f].pix[i], type)
=============================================================================
