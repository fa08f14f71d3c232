------------------------------- MODULE TraceUdp -------------------------------
(* send s to dst d ok, early s r (the local address asked before any receive),   *)
(* recv s n / got s r d src dst own, shut s, close s, settled, End               *)
EXTENDS Udp, TraceBase
vars == <<tid, pos, uvars>>
Init == TraceInit /\ UInit
(* the address a datagram was sent to is known on sockets that asked for it *)
Asked(s) == Cfg.any[s + 1] = 1
Next == \/ /\ IsEvent("send")
           /\ \/ E.ok = 1 /\ Send(E.s, E.to, E.d, E.dst)
              \/ E.ok = 0 /\ shut[E.s] /\ UNCHANGED uvars
        \/ IsEvent("nofd") /\ E.c = 0 /\ UNCHANGED uvars        \* no socket without a descriptor
        \/ IsEvent("early") /\ E.r = 0 /\ UNCHANGED uvars
        \/ IsEvent("recv") /\ RecvStart(E.s, E.n)
        \/ /\ IsEvent("got") /\ E.own = 1
           /\ \/ E.r >= 0 /\ E.r = Len(E.d) /\ E.src >= 0 /\ (E.dst = "") = ~Asked(E.s) /\ RecvOk(E.s, E.d, E.src, E.dst)
              \/ E.r <= 0 /\ RecvOver(E.s)
        \/ IsEvent("shut") /\ Shut(E.s)
        \/ IsEvent("close") /\ Close(E.s)
        \/ IsEvent("settled") /\ Settled /\ UNCHANGED uvars
        \/ /\ IsEvent("End") /\ (\A s \in Socks : rp[s] = -1)
           /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED uvars
Spec == Init /\ [][Next]_vars
=============================================================================
