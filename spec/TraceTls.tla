------------------------------- MODULE TraceTls -------------------------------
(* hs e / hsd e r ver, raw e; then the events of TraceStream                     *)
EXTENDS Tls, TraceBase
vars == <<tid, pos, tlsvars>>
Init == TraceInit /\ TlsInit
PV(e) == Cfg.pv[e + 1]
Both(e) == IF PV(e) = 3 THEN PV(Peer(e)) ELSE IF PV(Peer(e)) \in {3, PV(e)} THEN PV(e) ELSE 0
Match(e) == Both(e) # 0 /\ Cfg.trust[e \div 2 + 1] # 2
Version(e) == IF Both(e) = 1 THEN "TLSv1.2" ELSE "TLSv1.3"
(* a server that does not hear the client's complaint any more may believe in the connection *)
Done(e) == IF E.r = 0 THEN HsOk(e, Match(e)) /\ E.ver = Version(e) ELSE E.r = -1 /\ HsBad(e, Match(e))
Data == UNCHANGED hs
Next == \/ IsEvent("hs") /\ HsStart(E.e_)
        \/ IsEvent("hsd") /\ Done(E.e_)
        \/ IsEvent("early") /\ Early(E.e_, E.d)
        \/ IsEvent("earlyd") /\ (E.acc = 1) = (Cfg.early[E.e_ \div 2 + 1] = 2) /\ EarlyDone(E.e_, E.n, E.acc = 1)
        \/ IsEvent("raw") /\ Raw(E.e_)
        \/ IsEvent("ws") /\ Ready(E.e_) /\ Data /\ WriteStart(E.e_, E.d, E.full)
        \/ IsEvent("wd") /\ Data /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ IsEvent("rs") /\ Ready(E.e_) /\ Data /\ ReadStart(E.e_, E.n, E.full)
        \/ IsEvent("rd") /\ Data /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ IsEvent("fin") /\ Data /\ Finish(E.e_)
        \/ IsEvent("shut") /\ Data /\ Shut(E.e_)
        \/ IsEvent("close") /\ Data /\ Close(E.e_)
        \/ IsEvent("ssl") /\ E.n = 0 /\ UNCHANGED tlsvars
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>> /\ hs[e] # "run")
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED tlsvars
Spec == Init /\ [][Next]_vars
=============================================================================
