------------------------------ MODULE TraceServer ------------------------------
(* taken ok c free (listening while another socket has the port), open, try i / conn i ok (a client's attempt), acc i here (handed out), accret  *)
(* ok c (a fiber's accept returned), bye i, ans i got, settled, closing, closed,  *)
(* release, free, End                                                             *)
EXTENDS Server, TraceBase
vars == <<tid, pos, svars>>
Init == TraceInit /\ SrvInit
(* a client's own view of its connection may lag behind the server's *)
Next == \/ IsEvent("open") /\ E.ok = 1 /\ SrvOpen
        \/ IsEvent("taken") /\ E.ok = 0 /\ E.c = 0 /\ E.free = 0 /\ srv = "new" /\ UNCHANGED svars
        \/ IsEvent("try") /\ Ask(E.i)
        \/ Silent /\ E.e \in {"conn", "acc"} /\ cl[E.i] = "asking" /\ Queue(E.i)
        \/ IsEvent("conn") /\ (IF E.ok = 1 THEN cl[E.i] \notin {"none", "late", "asking", "refused"} /\ UNCHANGED svars ELSE Refuse(E.i))
        \/ IsEvent("acc") /\ E.here = 1 /\ Serve(E.i)
        \/ IsEvent("accret") /\ E.ok = E.c /\ (E.ok = 0 => srv \in {"closing", "closed"}) /\ UNCHANGED svars
        \/ IsEvent("bye") /\ (IF E.i = -1 THEN E.unix = 1 /\ UNCHANGED svars ELSE Bye(E.i))
        \/ IsEvent("ans") /\ (IF E.got = 1 THEN cl[E.i] \in {"served", "gone"} /\ UNCHANGED svars
                              ELSE E.got = 0 /\ Lose(E.i))
        \/ IsEvent("settled") /\ Settled /\ TxTaken
        \/ IsEvent("setctx") /\ SetTx(E.k)
        \/ IsEvent("cert") /\ cl[E.i] \in {"served", "gone"} /\ E.k \in via[E.i] /\ UNCHANGED svars
        \/ IsEvent("ctxs") /\ freed /\ E.n = 0 /\ UNCHANGED svars
        \/ IsEvent("closing") /\ SrvClosing
        \/ IsEvent("closed") /\ SrvClosed
        \/ IsEvent("release") /\ SrvRelease
        \/ IsEvent("free") /\ E.own = 1 /\ SrvFree
        \/ /\ IsEvent("End") /\ freed /\ (\A i \in Clients : cl[i] \in {"none", "refused", "lost", "gone"})
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED svars
Spec == Init /\ [][Next]_vars
=============================================================================
