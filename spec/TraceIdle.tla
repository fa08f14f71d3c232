------------------------------ MODULE TraceIdle ------------------------------
(* The events of TraceStream on connections with short time limits, and         *)
(* told e keep: the reader was told that nothing came in time.                   *)
EXTENDS Stream, Idle, TraceBase
TLim(e) == Cfg.lim
TRounds(e) == Cfg.r[e + 1]
TAsks(e) == Cfg.asks[e + 1] = 1
vars == <<tid, pos, ivars, strvars>>
Init == TraceInit /\ StInit /\ IInit
Keep == UNCHANGED ivars
On(n) == IsEvent(n) /\ Timely(E.t)
Next == \/ On("ws") /\ IStart(E.e_, "w", E.t) /\ WriteStart(E.e_, E.d, E.full)
        \/ On("wd") /\ IDone(E.e_, "w", E.t) /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ On("rs") /\ IStart(E.e_, "r", E.t) /\ ReadStart(E.e_, E.n, E.full)
        \/ On("rd") /\ IDone(E.e_, "r", E.t) /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ On("told") /\ ITold(E.e_, E.t, E.keep = 1) /\ ReadTold(E.e_, E.keep = 1)
        \/ On("fin") /\ IOther(E.e_, E.t) /\ Finish(E.e_)
        \/ On("shut") /\ IOther(E.e_, E.t) /\ Shut(E.e_)
        \/ On("close") /\ IOther(E.e_, E.t) /\ Close(E.e_)
        \/ Silent /\ E.e \in {"wd", "rd", "ws", "rs"} /\ (\E e \in {E.e_, Peer(E.e_)} : IExpire(e, E.t) /\ Shut(e))
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>>)
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED strvars /\ Keep
Spec == Init /\ [][Next]_vars
=============================================================================
