---------------------------- MODULE TracePlainFile ----------------------------
EXTENDS PlainFile, TraceBase
vars == <<tid, pos, pvars>>
Init == TraceInit /\ PInit
Next == \/ /\ IsEvent("open") /\ E.as = 1 /\ (E.rights = 420)
           /\ \/ E.ok = 1 /\ E.kept = 0 /\ Open(E.h, E.n, E.m, E.nf = 1)
              \/ E.ok = 0 /\ ~CanOpen(E.n, E.m, E.nf = 1) /\ UNCHANGED pvars
        \/ IsEvent("close") /\ Close(E.h)
        \/ IsEvent("read") /\ Read(E.h, E.l, E.r, E.d)
        \/ IsEvent("readall") /\ E.over = 0 /\ ReadAll(E.h, E.l, E.ok = 1, E.d)
        \/ IsEvent("write") /\ Write(E.h, E.l, E.r, E.d)
        \/ IsEvent("seek") /\ Seek(E.h, E.p, E.o, E.ok = 1)
        \/ IsEvent("far") /\ E.ok = 1 /\ Seek(E.h, "set", 0, TRUE)
        \/ IsEvent("size") /\ E.r = Size(E.h) /\ UNCHANGED pvars
        \/ IsEvent("utime") /\ E.ok = 1 /\ SetTime(E.h, E.t)
        \/ IsEvent("ftime") /\ Time(hd[E.h].f, E.t) /\ UNCHANGED pvars
        \/ IsEvent("mtime") /\ NameTime(E.n, E.t) /\ UNCHANGED pvars
        \/ IsEvent("unlink") /\ Unlink(E.n, E.ok = 1)
        \/ IsEvent("none") /\ E.r = 0 /\ UNCHANGED pvars
        \/ IsEvent("End") /\ E.fds = 0 /\ (\A h \in Handles : hd[h] = Closed) /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
===============================================================================
