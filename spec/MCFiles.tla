------------------------------ MODULE MCFiles ------------------------------
(* Two files (and one in no directory), two sessions, writes, reads, removals and corruptions *)
EXTENDS Files
CONSTANT MaxOps
VARIABLES disk, mem, err, n, hist
vars == <<disk, mem, err, n, hist>>
Names == 1..3
Lost == {3}
Images == {Image("short", <<1>>, <<"300">>), Image("uchar", <<1>>, <<"7">>), Image("short", <<1, 2>>, <<"-1", "7">>)}
Types == {"short", "uchar"}
Init == disk = [f \in Names |-> Nothing] /\ mem = Nothing /\ err = FALSE /\ n = 0 /\ hist = [f \in Names |-> Nothing]
Step == n < MaxOps /\ n' = n + 1
Put == Step /\ \E i \in Images : mem' = i /\ err' = FALSE /\ UNCHANGED <<disk, hist>>
Write(f) == Step /\ mem.st = "image" /\ err' = ~CanWrite(disk, f, Lost) /\ UNCHANGED mem
            /\ disk' = (IF CanWrite(disk, f, Lost) THEN [disk EXCEPT ![f] = mem] ELSE disk)
            /\ hist' = (IF CanWrite(disk, f, Lost) THEN [hist EXCEPT ![f] = mem] ELSE hist)
(* no space left: an error, and some rest of the file if it could be created *)
WriteFull(f) == Step /\ mem.st = "image" /\ err' = TRUE /\ UNCHANGED <<mem, hist>> /\ disk' = AfterNoSpace(disk, f, Lost)
Read(f, t, d) == Step /\ err' = ~CanRead(disk, f, t, d) /\ UNCHANGED <<disk, hist>>
            /\ mem' = (IF CanRead(disk, f, t, d) THEN Image(t, disk[f].shape, disk[f].pix) ELSE mem)
Erase(f) == Step /\ disk' = [disk EXCEPT ![f] = Nothing] /\ UNCHANGED <<mem, hist>> /\ err' = FALSE
Garble(f) == Step /\ f \notin Lost /\ disk' = [disk EXCEPT ![f] = Garbage] /\ UNCHANGED <<mem, hist>> /\ err' = FALSE
Next == Put \/ \E f \in Names : Write(f) \/ WriteFull(f) \/ Erase(f) \/ Garble(f) \/ \E t \in Types, d \in {-1, 1, 2} : Read(f, t, d)
Spec == Init /\ [][Next]_vars
(* Files hold what was last written, or nothing; in memory, pixels fit the type *)
LastWritten == \A f \in Names : disk[f].st = "image" => disk[f] = hist[f]
WellTyped == mem.st = "image" => \A i \in DOMAIN mem.pix : Fits(mem.pix[i], mem.type)
NeverLost == disk[3] = Nothing
(* Errors change nothing; reading changes no file; writing changes no image in memory and one file *)
ErrorsChangeNothing == [][err' => mem' = mem /\ \A f \in Names : disk[f] # Nothing => disk'[f] = disk[f]]_vars
OnlyRests == [][err' => \A f \in Names : disk'[f] \in {disk[f], Garbage}]_vars
OneFile == [][\A f, g \in Names : disk'[f] # disk[f] /\ disk'[g] # disk[g] => f = g]_vars
(* What was just written can be read again with the same type *)
RoundTrip == [][\A f \in Names : disk'[f] # disk[f] /\ disk'[f].st = "image" => CanRead(disk', f, mem.type, Len(mem.shape)) /\ disk'[f].pix = mem.pix]_vars
=============================================================================
