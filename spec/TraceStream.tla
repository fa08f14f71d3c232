----------------------------- MODULE TraceStream -----------------------------
(* ws e d full / wd e n bad; rs e n full / rd e d how; fin e; shut e; close e;   *)
(* watch e / unwatch e / hung e; End: everything completed, closed and released  *)
EXTENDS Stream, TraceBase
VARIABLE last  \* end -> when it last finished writing, shut down or closed
vars == <<tid, pos, last, strvars>>
Init == TraceInit /\ StInit /\ last = All(-1)
At(e) == last' = [last EXCEPT ![e] = IF @ < 0 THEN E.t ELSE @]
Keep == UNCHANGED last
Next == \/ IsEvent("ws") /\ Keep /\ WriteStart(E.e_, E.d, E.full)
        \/ IsEvent("wd") /\ Keep /\ WriteDone(E.e_, E.n, E.bad = 1)
        \/ IsEvent("rs") /\ Keep /\ ReadStart(E.e_, E.n, E.full)
        \/ IsEvent("rd") /\ Keep /\ E.own = 1 /\ (\E h \in (IF E.how = 3 THEN {1, 2} ELSE {E.how}) : ReadDone(E.e_, E.d, h))
        \/ IsEvent("fin") /\ At(E.e_) /\ Finish(E.e_)
        \/ IsEvent("shut") /\ At(E.e_) /\ Shut(E.e_)
        \/ IsEvent("close") /\ At(E.e_) /\ Close(E.e_)
        \/ IsEvent("watch") /\ Keep /\ Watch(E.e_)
        \/ IsEvent("unwatch") /\ Keep /\ Unwatch(E.e_)
           (* a hang-up that is a few milliseconds old has been told by now *)
           /\ (last[Peer(E.e_)] < 0 \/ E.t - last[Peer(E.e_)] <= 5)
        \/ IsEvent("hung") /\ Keep /\ HungUp(E.e_)
        \/ /\ IsEvent("End") /\ (\A e \in 0 .. E.n - 1 : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>>)
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED strvars /\ Keep
Spec == Init /\ [][Next]_vars
=============================================================================
