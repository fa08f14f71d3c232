---------------------------- MODULE TraceSendFile ----------------------------
(* The events of TraceStream, and ss e len full / sd e n bad tell, seek e off,   *)
(* fr e len n d (the file is read)                                               *)
EXTENDS SendFile, TraceBase
vars == <<tid, pos, sfvars>>
Init == TraceInit /\ SfInit /\ file = [e \in Ends |-> IF e < Len(Cfg.files) THEN Cfg.files[e + 1] ELSE ""]
Keep == UNCHANGED <<file, fpos, ask>>
Next == \/ IsEvent("ws") /\ Keep /\ ask[E.e_] = <<>> /\ WriteStart(E.e_, E.d, E.full)
        \/ IsEvent("wd") /\ Keep /\ ask[E.e_] = <<>> /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ IsEvent("ss") /\ SendStart(E.e_, E.len, E.full)
        \/ IsEvent("sd") /\ SendDone(E.e_, E.n, E.bad = 1) /\ E.tell = fpos[E.e_] + E.n
        \/ IsEvent("seek") /\ SfSeek(E.e_, E.off)
        \/ IsEvent("fr") /\ SfRead(E.e_, E.len, E.n, E.d)
        \/ IsEvent("rs") /\ Keep /\ ReadStart(E.e_, E.n, E.full)
        \/ IsEvent("rd") /\ Keep /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ IsEvent("fin") /\ Keep /\ Finish(E.e_)
        \/ IsEvent("shut") /\ Keep /\ Shut(E.e_)
        \/ IsEvent("close") /\ Keep /\ Close(E.e_)
        \/ IsEvent("watch") /\ Keep /\ Watch(E.e_)
        \/ IsEvent("unwatch") /\ Keep /\ Unwatch(E.e_)
        \/ IsEvent("hung") /\ Keep /\ HungUp(E.e_)
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>>)
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED sfvars
Spec == Init /\ [][Next]_vars
=============================================================================
