----------------------------- MODULE TraceTlsIdle -----------------------------
(* The events of TraceTls on connections with short time limits: a handshake    *)
(* that stands still is ended like a read or a write that does.                  *)
EXTENDS Tls, Idle, TraceBase
TLim(e) == Cfg.lim
TRounds(e) == Cfg.r[e + 1]
TAsks(e) == Cfg.asks[e + 1] = 1
vars == <<tid, pos, ivars, tlsvars>>
Init == TraceInit /\ TlsInit /\ IInit
PV(e) == Cfg.pv[e + 1]
Both(e) == IF PV(e) = 3 THEN PV(Peer(e)) ELSE IF PV(Peer(e)) \in {3, PV(e)} THEN PV(e) ELSE 0
Match(e) == Both(e) # 0 /\ Cfg.trust[e \div 2 + 1] # 2
Version(e) == IF Both(e) = 1 THEN "TLSv1.2" ELSE "TLSv1.3"
Done(e) == IF E.r = 0 THEN HsOk(e, Match(e)) /\ E.ver = Version(e) ELSE E.r = -1 /\ HsBad(e, Match(e))
Data == UNCHANGED hs
Keep == UNCHANGED ivars
On(n) == IsEvent(n) /\ Timely(E.t)
Next == \/ On("hs") /\ IStart(E.e_, "h", E.t) /\ HsStart(E.e_)
        \/ On("hsd") /\ IDone(E.e_, "h", E.t) /\ Done(E.e_)
        \/ On("raw") /\ IOther(E.e_, E.t) /\ Raw(E.e_)
        \/ On("ws") /\ Ready(E.e_) /\ Data /\ IStart(E.e_, "w", E.t) /\ WriteStart(E.e_, E.d, E.full)
        \/ On("wd") /\ Data /\ IDone(E.e_, "w", E.t) /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ On("rs") /\ Ready(E.e_) /\ Data /\ IStart(E.e_, "r", E.t) /\ ReadStart(E.e_, E.n, E.full)
        \/ On("rd") /\ Data /\ IDone(E.e_, "r", E.t) /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ On("told") /\ Data /\ ITold(E.e_, E.t, E.keep = 1) /\ ReadTold(E.e_, E.keep = 1)
        \/ On("shut") /\ Data /\ IOther(E.e_, E.t) /\ Shut(E.e_)
        \/ On("close") /\ Data /\ IOther(E.e_, E.t) /\ Close(E.e_)
        \/ Silent /\ E.e \in {"wd", "rd", "ws", "rs", "hsd"} /\ (\E e \in {E.e_, Peer(E.e_)} : IExpire(e, E.t) /\ Shut(e)) /\ Data
        \/ IsEvent("ssl") /\ E.n = 0 /\ UNCHANGED tlsvars /\ Keep
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>> /\ hs[e] # "run")
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED tlsvars /\ Keep
Spec == Init /\ [][Next]_vars
=============================================================================
