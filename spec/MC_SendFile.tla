----------------------------- MODULE MC_SendFile -----------------------------
(* Sending as it is carried out: the socket takes some of what is asked for,     *)
(* or nothing yet (the sender waits until it is writable), or has failed; the    *)
(* file may end.  The full form repeats with the rest.  Every completion must be *)
(* one that SendFile allows, and the peer gets the bytes that were asked for.    *)
EXTENDS SendFile
CONSTANTS Cap, MaxOps
VARIABLES left, kq, st, sent, all, got, good
vars == <<sfvars, left, kq, st, sent, all, got, good>>
\* end 0 sends, end 1 reads; kq: bytes in the socket; all: bytes the completed and running requests put into it; got: bytes read
Init == /\ SfInit /\ file \in [Ends -> {"", "abc"}] /\ left = MaxOps /\ kq = "" /\ st = "idle" /\ sent = 0 /\ all = "" /\ got = "" /\ good = TRUE
NoOther == UNCHANGED <<kq, all, got, good>>
Ask(n, full) == /\ left > 0 /\ st = "idle" /\ left' = left - 1 /\ SendStart(0, n, full) /\ st' = "try" /\ sent' = 0 /\ NoOther
MSeek(p) == left > 0 /\ st = "idle" /\ left' = left - 1 /\ SfSeek(0, p) /\ UNCHANGED <<st, sent>> /\ NoOther
Todo == Rest(0, ask[0][1])
Put(n) == LET d == SubSeq(Todo, sent + 1, sent + n) IN /\ kq' = kq \o d /\ all' = all \o d /\ sent' = sent + n
Room == Cap - Len(kq)
Failed == fin[1] = 2 \/ cut[0]
\* what the library reports
ReportIt(n, bad) == /\ good' = (good /\ ENABLED SendDone(0, n, bad)) /\ st' = "idle"
                    /\ IF ENABLED SendDone(0, n, bad) THEN SendDone(0, n, bad) ELSE UNCHANGED sfvars
Transfer ==
  /\ st = "try" /\ ~Failed /\ UNCHANGED <<got, left>>
  /\ LET more == Len(Todo) - sent  full == wp[0][2] = 1 IN
     \/ /\ more > 0 /\ Room > 0
        /\ \E n \in 1 .. Min2(more, Room) :
             /\ Put(n)
             /\ IF full /\ sent + n < ask[0][1] THEN st' = "try" /\ UNCHANGED <<sfvars, good>>
                ELSE ReportIt(sent + n, FALSE)
     \/ /\ more > 0 /\ st' = "wait" /\ UNCHANGED <<sfvars, kq, sent, all, good>>
     \/ /\ more = 0 /\ ReportIt(sent, full /\ sent < ask[0][1]) /\ UNCHANGED <<kq, sent, all>>
Writable == st = "wait" /\ (Room > 0 \/ Failed) /\ st' = "try" /\ UNCHANGED <<sfvars, left, kq, sent, all, got, good>>
Fail == st = "try" /\ Failed /\ (wp[0][2] = 1 => ask[0][1] > sent) /\ ReportIt(IF wp[0][2] = 1 THEN sent ELSE 0, TRUE) /\ UNCHANGED <<left, kq, sent, all, got>>
RStart(n) == fin[1] < 2 /\ open[1] /\ ReadStart(1, n, 0) /\ UNCHANGED <<left, kq, st, sent, all, got, good>>
RDone == /\ rp[1] # <<>> /\ kq # "" /\ LET n == Min2(Len(kq), rp[1][1])  d == SubSeq(kq, 1, n) IN
              /\ good' = (good /\ ENABLED ReadDone(1, d, 0)) /\ ReadDone(1, d, 0) /\ UNCHANGED <<file, fpos, ask>>
              /\ kq' = From(kq, n) /\ got' = got \o d /\ UNCHANGED <<left, st, sent, all>>
RShut == fin[1] < 2 /\ left = 0 /\ Shut(1) /\ UNCHANGED <<file, fpos, ask, left, kq, st, sent, all, got, good>>
Next == \/ \E n \in 0 .. 4, full \in {0, 1} : (full = 1 => n > 0) /\ Ask(n, full)
        \/ \E p \in {0, 1, 4} : MSeek(p)
        \/ Transfer \/ Writable \/ Fail \/ RDone \/ RShut
        \/ \E n \in 1 .. 2 : UNCHANGED <<file, fpos, ask>> /\ RStart(n)
Spec == Init /\ [][Next]_vars
Right == good
InOrder == all = got \o kq
PositionTells == st = "idle" => fpos[0] >= 0
=============================================================================
