---------------------------- MODULE TraceFiles ----------------------------
EXTENDS Files, TraceLog
VARIABLES disk,  \* file -> content
          ses,   \* session -> file
          mem    \* raster -> image
vars == <<disk, ses, mem, l>>
FileNames == 0..3
Lost == {3}
Sessions == 0..2
Rasters == 0..2
Init == disk = [f \in FileNames |-> Nothing] /\ ses = [s \in Sessions |-> 0] /\ mem = [r \in Rasters |-> Nothing] /\ l = 1
Same == UNCHANGED <<disk, ses, mem>>
DoNew == Is("new") /\ ses' = [ses EXCEPT ![Log[l].s] = Log[l].f] /\ UNCHANGED <<disk, mem>>
DoCopy == Is("copy") /\ ses' = [ses EXCEPT ![Log[l].to] = ses[Log[l].from]] /\ UNCHANGED <<disk, mem>>
DoPut == Is("put") /\ UNCHANGED <<disk, ses>>
         /\ mem' = [mem EXCEPT ![Log[l].r] = Image(Log[l].type, Log[l].shape, Log[l].pix)]
DoPoke == Is("poke") /\ UNCHANGED <<disk, ses>> /\ mem' = [mem EXCEPT ![Log[l].r].pix[Log[l].i] = Log[l].v]
DoWrite == LET f == ses[Log[l].s] ok == CanWrite(disk, f, Lost) IN
           /\ Is("write") /\ UNCHANGED <<ses, mem>>
           /\ Log[l].threw = ~ok /\ Log[l].told = ~ok
           /\ disk' = IF ok THEN [disk EXCEPT ![f] = mem[Log[l].r]] ELSE disk
(* No space left: an error, and some rest of a file which could be created *)
DoWriteFull == LET f == ses[Log[l].s] IN
               /\ Is("write-full") /\ UNCHANGED <<ses, mem>> /\ Log[l].threw /\ Log[l].told
               /\ disk' = AfterNoSpace(disk, f, Lost)
DoRead == LET f == ses[Log[l].s] ok == CanRead(disk, f, Log[l].type, Log[l].dim) IN
          /\ Is("read") /\ UNCHANGED <<ses, disk>>
          /\ Log[l].threw = ~ok /\ Log[l].told = ~ok
          /\ mem' = IF ok THEN [mem EXCEPT ![Log[l].r] = Image(Log[l].type, disk[f].shape, disk[f].pix)] ELSE mem
DoRm == Is("rm") /\ disk' = [disk EXCEPT ![Log[l].f] = Nothing] /\ UNCHANGED <<ses, mem>>
DoGarble == Is("garble") /\ disk' = [disk EXCEPT ![Log[l].f] = Garbage] /\ UNCHANGED <<ses, mem>>
(* Everything observable: rasters through their own access routes, files through another reader *)
DoMem == Is("mem") /\ Same /\ Ev.shape = mem[Ev.r].shape /\ Ev.pix = mem[Ev.r].pix
DoDisk == LET d == disk[Ev.f] IN Is("disk") /\ Same /\ Ev.st = d.st /\ (d.st = "image" => Ev.shape = d.shape /\ Ev.pix = d.pix)
(* No file but the known ones in the directory, no file left open *)
DoDir == Is("dir") /\ Same /\ Ev.others = 0 /\ Ev.open = 0
DoEnd == Is("end") /\ Same
Next == DoNew \/ DoCopy \/ DoPut \/ DoPoke \/ DoWrite \/ DoWriteFull \/ DoRead \/ DoRm \/ DoGarble \/ DoMem \/ DoDisk \/ DoDir \/ DoEnd
Spec == Init /\ [][Next]_vars
=============================================================================
