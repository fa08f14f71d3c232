---------------------------- MODULE TraceTlsFile ----------------------------
(* The events of TraceTls, those of TraceSendFile for files sent over TLS, and   *)
(* sup e r: may the connection send files? (where the kernel encrypts)           *)
EXTENDS Tls, SendFile, TraceBase
vars == <<tid, pos, hs, sfvars>>
Init == TraceInit /\ SfInit /\ hs = All("no") /\ file = [e \in Ends |-> IF e < Len(Cfg.files) THEN Cfg.files[e + 1] ELSE ""]
PV(e) == Cfg.pv[e + 1]
Both(e) == IF PV(e) = 3 THEN PV(Peer(e)) ELSE IF PV(Peer(e)) \in {3, PV(e)} THEN PV(e) ELSE 0
Match(e) == Both(e) # 0 /\ Cfg.trust[e \div 2 + 1] # 2
Version(e) == IF Both(e) = 1 THEN "TLSv1.2" ELSE "TLSv1.3"
Done(e) == IF E.r = 0 THEN HsOk(e, Match(e)) /\ E.ver = Version(e) ELSE E.r = -1 /\ HsBad(e, Match(e))
Keep == UNCHANGED <<file, fpos, ask>>
Data == UNCHANGED <<hs, file, fpos, ask>>
Idle(e) == ask[e] = <<>>
Next == \/ IsEvent("hs") /\ Keep /\ HsStart(E.e_)
        \/ IsEvent("hsd") /\ Keep /\ Done(E.e_)
        \/ IsEvent("early") /\ Keep /\ Early(E.e_, E.d)
        \/ IsEvent("earlyd") /\ Keep /\ (E.acc = 1) = (Cfg.early[E.e_ \div 2 + 1] = 2) /\ EarlyDone(E.e_, E.n, E.acc = 1)
        \/ IsEvent("raw") /\ Keep /\ Raw(E.e_)
        \/ IsEvent("sup") /\ Ready(E.e_) /\ E.r = Cfg.kt[E.e_ + 1] /\ UNCHANGED <<hs, sfvars>>
        \/ IsEvent("ss") /\ Ready(E.e_) /\ Cfg.kt[E.e_ + 1] = 1 /\ UNCHANGED hs /\ SendStart(E.e_, E.len, E.full)
        \/ IsEvent("sd") /\ UNCHANGED hs /\ SendDone(E.e_, E.n, E.bad = 1) /\ E.tell = fpos[E.e_] + E.n
        \/ IsEvent("seek") /\ UNCHANGED hs /\ SfSeek(E.e_, E.off)
        \/ IsEvent("fr") /\ UNCHANGED hs /\ SfRead(E.e_, E.len, E.n, E.d)
        \/ IsEvent("ws") /\ Ready(E.e_) /\ Data /\ Idle(E.e_) /\ WriteStart(E.e_, E.d, E.full)
        \/ IsEvent("wd") /\ Data /\ Idle(E.e_) /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ IsEvent("rs") /\ Ready(E.e_) /\ Data /\ ReadStart(E.e_, E.n, E.full)
        \/ IsEvent("rd") /\ Data /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ IsEvent("fin") /\ Data /\ Finish(E.e_)
        \/ IsEvent("shut") /\ Data /\ Shut(E.e_)
        \/ IsEvent("close") /\ Data /\ Close(E.e_)
        \/ IsEvent("ssl") /\ E.n = 0 /\ UNCHANGED <<hs, sfvars>>
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>> /\ hs[e] # "run")
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED <<hs, sfvars>>
Spec == Init /\ [][Next]_vars
=============================================================================
