----------------------------- MODULE MC_PlainFile -----------------------------
(* Small files, every call; kfread_all as it is written: read again until there is enough or nothing more.     *)
EXTENDS PlainFile
CONSTANTS Size0, MaxFiles, MaxPos
VARIABLES ra,   \* the read_all that is going on: [h, l, got, start] or no handle
          last  \* what the last call was
mvars == <<pvars, ra, last>>
No == [h |-> -1, l |-> 0, got |-> "", at |-> 0]
Idle == ra = No
Texts == {"x", "yz"}
MInit == PInit /\ ra = No /\ last = "begin"
Small == Len(data) <= MaxFiles /\ (\A f \in 1..Len(data) : Len(data[f]) <= Size0) /\ (\A h \in Handles : hd[h].pos <= MaxPos)
Say(s) == last' = s /\ UNCHANGED ra
MOpen(h, n, m, nf) == Open(h, n, m, nf) /\ Say("open")
MRead(h) == \E l \in 0..2 : LET d == Take(Rest(h), Min2(l, Len(Rest(h)))) IN Reads(hd[h].m) /\ \E r \in 0..Len(d) : Read(h, l, r, Take(d, r)) /\ Say("read")
MWrite(h) == \E d \in Texts : Writes(hd[h].m) /\ Write(h, Len(d), Len(d), d) /\ Say(IF hd[h].m = "a" THEN "append" ELSE "write")
MSeek(h) == \E p \in {"set", "cur", "end"}, o \in -1..2 : \E ok \in BOOLEAN : Seek(h, p, o, ok) /\ Say("seek")
Begin(h) == \E l \in 1..3 : hd[h] # Closed /\ Reads(hd[h].m) /\ ra' = [h |-> h, l |-> l, got |-> "", at |-> hd[h].pos] /\ last' = "begin all" /\ UNCHANGED pvars
(* one read of it *)
Piece == /\ ~Idle /\ Len(ra.got) < ra.l /\ Rest(ra.h) # ""
         /\ \E r \in 1..Min2(ra.l - Len(ra.got), Len(Rest(ra.h))) :
              /\ ra' = [ra EXCEPT !.got = @ \o Take(Rest(ra.h), r)]
              /\ Read(ra.h, ra.l - Len(ra.got), r, Take(Rest(ra.h), r))
         /\ last' = "piece"
Done == /\ ~Idle /\ (Len(ra.got) = ra.l \/ Rest(ra.h) = "") /\ ra' = No /\ last' = "all" /\ UNCHANGED pvars
Next == \/ /\ Idle
           /\ \/ \E h \in Handles, n \in Names, m \in {"r", "a", "w", "rw"}, nf \in BOOLEAN : MOpen(h, n, m, nf)
              \/ \E h \in Handles : hd[h] # Closed /\ (MRead(h) \/ MWrite(h) \/ MSeek(h) \/ Begin(h) \/ (Close(h) /\ Say("close")))
              \/ \E n \in Names : \E ok \in BOOLEAN : Unlink(n, ok) /\ Say("unlink")
        \/ Piece \/ Done
Spec == MInit /\ [][Next]_mvars /\ WF_mvars(Piece) /\ WF_mvars(Done)
(* what the loop comes to is what one step of the specification gives *)
AllAsOne == [][Done => LET s == data[hd[ra.h].f]
                           there == IF ra.at >= Len(s) THEN "" ELSE From(s, ra.at)
                           n == Min2(ra.l, Len(there))
                       IN ra.got = Take(there, n) /\ hd[ra.h].pos = ra.at + n /\ ((Len(ra.got) = ra.l) = (Len(there) >= ra.l))]_mvars
(* what is in a file is changed by writes and by opening it to be emptied only; appending leaves what is there  *)
Keeps == [][\A f \in 1..Len(data) : data'[f] # data[f] => last' \in {"write", "append", "open"} /\ (last' = "append" => IsPrefix(data[f], data'[f])) /\ (last' = "open" => data'[f] = "")]_mvars
(* a file stays behind its handles; names share it *)
Stays == [][\A h \in Handles : (hd[h] # Closed /\ hd'[h] # Closed) => hd'[h].f = hd[h].f]_mvars
Sane == /\ \A h \in Handles : hd[h] # Closed => hd[h].pos >= 0 /\ hd[h].f \in 1..Len(data)
        /\ ino[Link] = 0 /\ ino[Dir] = 0 /\ \A a, b \in Names : (a # b /\ ino[a] # 0) => ino[a] # ino[b]
        /\ Len(data) = Len(mt)
Ends == ~Idle ~> Idle
===============================================================================
