------------------------------- MODULE TraceFile -------------------------------
(* open h file m d ok, close h, begin h k len data, io h res cut (the kernel's    *)
(* transfers), end h ok got left data, seek h p off ok, tell/size h r,            *)
(* content file data, End                                                         *)
EXTENDS File, TraceBase
vars == <<tid, pos, fvars>>
TAlign(x) == Cfg.align
Init == TraceInit /\ FInit /\ files = [f \in 0 .. Len(Cfg.files) - 1 |-> Cfg.files[f + 1]]
Report0(h) == LET o == op[h] IN
              CASE o.k = "r" -> EndR(h, E.got, E.data)
                [] o.k = "w" -> EndW(h, E.got)
                [] OTHER -> EndF(h, E.ok = 1, E.left, E.data)
Next == \/ IsEvent("open") /\ E.ok = 1 /\ FOpen(E.h, E.file, E.m, E.d = 1)
        \/ IsEvent("close") /\ FClose(E.h)
        \/ IsEvent("begin") /\ Begin(E.h, E.k, E.len, E.data)
        \/ IsEvent("io") /\ Io(E.h, E.res, E.cut = 1)
        \/ IsEvent("nofiber") /\ NoFiber(E.h)
        \/ IsEvent("end") /\ Report0(E.h) /\ End(E.h)
        \/ IsEvent("seek") /\ Seek(E.h, E.p, E.off, E.ok = 1)
        \/ IsEvent("tell") /\ hd[E.h].open /\ E.r = hd[E.h].off /\ UNCHANGED fvars
        \/ IsEvent("size") /\ hd[E.h].open /\ E.r = RLen(files[hd[E.h].file]) /\ UNCHANGED fvars
        \/ IsEvent("content") /\ E.data = files[E.file] /\ UNCHANGED fvars
        \/ /\ IsEvent("End") /\ (\A h \in Handles : ~hd[h].open /\ op[h].k = "none")
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED fvars
Spec == Init /\ [][Next]_vars
=============================================================================
