---------------------------- MODULE TraceConnect ----------------------------
(* try i kind, release i (the loop may hear the answer), abort i, done i ok own   *)
(* (own: its own argument, and the addresses asked for), xfer i ok, closed i, End *)
EXTENDS Connect, TraceBase
TLim(i) == Cfg.lim
vars == <<tid, pos, att>>
Init == TraceInit /\ AInit
On(n) == IsEvent(n) /\ ATimely(E.t)
Ans(k) == CASE k \in {"open", "hopen", "uopen"} -> "there" [] k \in {"refused", "hrefused"} -> "refuses"
            [] k = "stuck" -> "silent" [] OTHER -> "never"
Next == \/ On("try") /\ ATry(E.i, Ans(E.kind), E.kind \in {"hopen", "hrefused"}, E.r, E.t)
        \/ On("release") /\ ARelease(E.i, E.t)
        \/ On("abort") /\ AAbort(E.i, E.t)
        \/ On("done") /\ E.own = 1 /\ IF E.ok = 1 THEN AOk(E.i) ELSE AFail(E.i, E.t)
        \/ On("xfer") /\ AUse(E.i, E.ok = 1)
        \/ On("closed") /\ AClose(E.i)
        \/ /\ IsEvent("End") /\ (\A i \in Attempts : att[i].st = "idle")
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED att
Spec == Init /\ [][Next]_vars
=============================================================================
