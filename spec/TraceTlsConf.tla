----------------------------- MODULE TraceTlsConf -----------------------------
(* mk x …ok, own x …ok (contexts and certificates), def x, try g c nm tab obj res, ask g o, cli g ok …,          *)
(* srv g ok …, xch g ok, bye g, drop o, left (objects that are still there), End                                  *)
EXTENDS TlsConf, TraceBase
vars == <<tid, pos, cvars>>
TKeyOf == <<0, 1, 1, 2>>
TIssuer == <<0, 1, 0, 2>>
On == Cfg.sni = 1
Reject == Cfg.reject = 1
Init == TraceInit /\ CInit
Rec == [srv |-> E.srv = 1, cert |-> E.cert, key |-> E.key, chain |-> E.chain, bad |-> E.bad, trust |-> E.trust, al |-> E.al, npn |-> E.npn = 1, lo |-> E.lo, hi |-> E.hi, ci |-> E.ci]
Next == \/ IsEvent("mk") /\ Make(E.x, Rec, E.cabad, E.ok = 1)
        \/ IsEvent("own") /\ Own(E.x, E.cert, E.key, E.chain, E.bad, E.ok = 1)
        \/ IsEvent("def") /\ Default(E.x)
        \/ IsEvent("try") /\ Try(E.g, [c |-> E.c, nm |-> E.nm = 1, tab |-> E.tab, obj |-> E.obj = 1, res |-> E.res = 1])
        \/ IsEvent("ask") /\ Ask(E.g, E.o, On)
        \/ IsEvent("cli") /\ Cli(E.g, [ok |-> E.ok = 1, cert |-> E.cert, chain |-> E.chain, p |-> E.p, v |-> E.v, ci |-> E.ci, re |-> E.re = 1], On, Reject)
        \/ IsEvent("srv") /\ Srv(E.g, [ok |-> E.ok = 1, cert |-> E.cert, p |-> E.p, v |-> E.v], On, Reject)
        \/ IsEvent("xch") /\ Exchange(E.g, E.ok = 1)
        \/ IsEvent("bye") /\ Bye(E.g)
        \/ IsEvent("drop") /\ Drop(E.o)
        \/ IsEvent("left") /\ E.ssl = 0 /\ E.x509 = 0 /\ E.ctx = 0 /\ UNCHANGED cvars
        \/ IsEvent("End") /\ AllOver /\ AllGone /\ E.live = 0 /\ E.badclose = 0 /\ E.leakfd = 0 /\ E.counts = 0 /\ UNCHANGED cvars
Spec == Init /\ [][Next]_vars
===============================================================================
