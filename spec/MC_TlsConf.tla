------------------------------ MODULE MC_TlsConf ------------------------------
(* The implementation's handshake: the name callback on the client's first message, and again from the        *)
(* protocol callback while it has given no object; the object is let go when the connection is destroyed.      *)
(* Contexts 0 and 1 are a server's, 2 is a client's.  It refines TlsConf.                                      *)
EXTENDS TlsConf, TLC
CONSTANTS Groups, MaxC, On, Reject, Vers, Certs, Trusted, Wants
VARIABLES ic, nobj, nconn
ivars == <<cvars, ic, nobj, nconn>>
TrustAll == {<<>>, <<0>>}
TrustNone == {<<>>}
WantMany == {<<>>, <<1>>, <<2, 1>>}
WantOne == {<<1>>}
WantTwo == {<<>>, <<1>>}
KO == <<0, 1, 1, 2>>
IS == <<0, 1, 0, 2>>
Server(cert, lo, hi, al, trust) == [srv |-> TRUE, cert |-> cert, key |-> KeyOf[cert + 1], chain |-> IF cert = 3 THEN <<2>> ELSE <<>>, bad |-> 0, trust |-> trust, al |-> al, npn |-> FALSE, lo |-> lo, hi |-> hi, ci |-> <<0>>]
Client(lo, hi, al, npn, trust, own) == [srv |-> FALSE, cert |-> own, key |-> 0, chain |-> <<>>, bad |-> 0, trust |-> trust, al |-> al, npn |-> npn, lo |-> lo, hi |-> hi, ci |-> <<0>>]
Ranges == {v \in Vers \X Vers : v[1] <= v[2]}
MInit == /\ dflt = 0 /\ cn = <<>> /\ sni = <<>> /\ ses = <<>> /\ ic = <<>> /\ nobj = 0 /\ nconn = 0
         /\ \E c0 \in Certs, r0 \in Ranges, a0 \in {<<>>, <<0, 1>>}, n0 \in {<<>>, <<0>>}, a1 \in {<<>>, <<1>>},
               rc \in Ranges, ac \in Wants, tc \in Trusted, oc \in {None, 0}, np \in BOOLEAN :
               /\ np => Len(ac) = 1
               /\ ctx = (0 :> Server(c0, r0[1], r0[2], a0, n0) @@ 1 :> Server(1, 3, 4, a1, n0) @@ 2 :> Client(rc[1], rc[2], ac, np, tc, oc))
MTry(g) ==
  /\ nconn < MaxC /\ nconn' = nconn + 1
  /\ \E nm \in BOOLEAN, obj \in BOOLEAN, tab \in {None, 1}, res \in BOOLEAN :
       /\ (res => g \in DOMAIN ses) /\ (ctx[0].trust # <<>> => tab = None)
       /\ Try(g, [c |-> 2, nm |-> nm, tab |-> tab, obj |-> obj, res |-> res])
       /\ ic' = PutC(ic, g, [ph |-> "hello", sni |-> 0, use |-> dflt, v |-> 0, p |-> None, hit |-> FALSE])
  /\ UNCHANGED nobj
Fail(g) == ic' = [ic EXCEPT ![g].ph = "failed"]
(* the newest version of the server's that is in the client's range; a session of this listener may be taken up *)
MHello(g) ==
  /\ g \in DOMAIN ic /\ ic[g].ph = "hello"
  /\ LET s == ctx[dflt]
         c == ctx[2]
         both == {v \in s.lo..s.hi : v >= c.lo /\ v <= c.hi}
     IN IF both = {} THEN Fail(g)
        ELSE \E hit \in {FALSE} \cup (IF cn[g].res /\ ses[g].dflt = dflt /\ ses[g].dcert = s.cert THEN {TRUE} ELSE {}) :
             ic' = [ic EXCEPT ![g].ph = "name", ![g].v = CHOOSE v \in both : \A w \in both : w <= v, ![g].hit = hit]
  /\ UNCHANGED <<cvars, nobj, nconn>>
Create(g, next) ==
  LET o == IF cn[g].obj THEN nobj + 1 ELSE 0
  IN /\ Ask(g, o, On) /\ nobj' = (IF o # 0 THEN o ELSE nobj)
     /\ ic' = [ic EXCEPT ![g].ph = next, ![g].sni = o, ![g].use = IF cn[g].tab # None THEN cn[g].tab ELSE @]
MName(g) ==
  /\ g \in DOMAIN ic /\ ic[g].ph = "name"
  /\ IF ~On THEN ic' = [ic EXCEPT ![g].ph = "proto"] /\ UNCHANGED <<cvars, nobj>>
     ELSE IF ~cn[g].nm THEN (IF Reject THEN Fail(g) ELSE ic' = [ic EXCEPT ![g].ph = "proto"]) /\ UNCHANGED <<cvars, nobj>>
     ELSE Create(g, "proto")
  /\ UNCHANGED nconn
MAgain(g) == /\ g \in DOMAIN ic /\ ic[g].ph = "proto" /\ On /\ cn[g].nm /\ ic[g].sni = 0 /\ ctx[2].al # <<>> /\ ~ctx[2].npn /\ ctx[ic[g].use].al # <<>>
             /\ Create(g, "select") /\ UNCHANGED nconn
MProto(g) ==
  /\ g \in DOMAIN ic /\ \/ ic[g].ph = "select"
                        \/ ic[g].ph = "proto" /\ ~(On /\ cn[g].nm /\ ic[g].sni = 0 /\ ctx[2].al # <<>> /\ ~ctx[2].npn /\ ctx[ic[g].use].al # <<>>)
  /\ LET mine == ctx[ic[g].use].al
         theirs == ctx[2].al
         match == {i \in 1..Len(mine) : \E j \in 1..Len(theirs) : mine[i] = theirs[j]}
         best == IF match = {} THEN None ELSE mine[CHOOSE i \in match : \A j \in match : i <= j]
         p == IF mine = <<>> \/ theirs = <<>> THEN None ELSE IF ~ctx[2].npn THEN best ELSE IF ic[g].v = 4 THEN None ELSE IF best = None THEN theirs[1] ELSE best
     IN ic' = [ic EXCEPT ![g].ph = "certs", ![g].p = p]
  /\ UNCHANGED <<cvars, nobj, nconn>>
Shown(g) == IF ic[g].hit THEN ses[g].cert ELSE ctx[ic[g].use].cert
Verified(trust, x) == x # None /\ Trusts(trust, x, IF x = 3 THEN <<2>> ELSE <<>>)
OwnGood(g) == ctx[dflt].trust = <<>> \/ ic[g].hit \/ Verified(ctx[dflt].trust, ctx[2].cert)
MCerts(g) ==
  /\ g \in DOMAIN ic /\ ic[g].ph = "certs"
  /\ IF ~ic[g].hit /\ ctx[2].trust # <<>> /\ ~Verified(ctx[2].trust, Shown(g)) THEN Fail(g)
     ELSE IF ic[g].v < 4 /\ ~OwnGood(g) THEN Fail(g)
     ELSE ic' = [ic EXCEPT ![g].ph = "good"]
  /\ UNCHANGED <<cvars, nobj, nconn>>
CliRec(g) == [ok |-> ic[g].ph = "good", cert |-> Shown(g), chain |-> ctx[ic[g].use].chain, p |-> ic[g].p, v |-> ic[g].v, ci |-> 0, re |-> ic[g].hit]
SrvRec(g) == [ok |-> ic[g].ph = "good" /\ OwnGood(g), cert |-> (IF ctx[dflt].trust # <<>> THEN ctx[2].cert ELSE None), p |-> ic[g].p, v |-> ic[g].v]
Told(g) == g \in DOMAIN ic /\ ic[g].ph \in {"good", "failed"}
MCli(g) == Told(g) /\ Cli(g, CliRec(g), On, Reject) /\ UNCHANGED <<ic, nobj, nconn>>
MSrv(g) == Told(g) /\ Srv(g, SrvRec(g), On, Reject) /\ UNCHANGED <<ic, nobj, nconn>>
MExchange(g) == Told(g) /\ cn[g].srv # "run" /\ ~cn[g].over /\ Exchange(g, cn[g].srv = "ok") /\ UNCHANGED <<ic, nobj, nconn>>
MBye(g) == Told(g) /\ cn[g].cli # "run" /\ Bye(g) /\ UNCHANGED <<ic, nobj, nconn>>
MDestroy == \E o \in DOMAIN sni : Drop(o) /\ UNCHANGED <<ic, nobj, nconn>>
Replace == Idle /\ nconn > 0 /\ nconn < MaxC /\ ctx[0].cert # 1 /\ ctx' = [ctx EXCEPT ![0].cert = 1] /\ UNCHANGED <<dflt, cn, sni, ses, ic, nobj, nconn>>
Next == Replace \/ MDestroy \/ \E g \in Groups : MTry(g) \/ MHello(g) \/ MName(g) \/ MAgain(g) \/ MProto(g) \/ MCerts(g) \/ MCli(g) \/ MSrv(g) \/ MExchange(g) \/ MBye(g)
Spec == MInit /\ [][Next]_ivars /\ WF_ivars(Next)
(* what the implementation comes to is what the specification allows *)
Fits == \A g \in DOMAIN ic : Told(g) => /\ cn[g].cli = "run" => CliFits(g, CliRec(g), On, Reject)
                                        /\ cn[g].srv = "run" => SrvFits(g, SrvRec(g), On, Reject)
(* nobody who is to be refused gets in, and no certificate of another name is shown in a full handshake *)
Refused == \A g \in DOMAIN cn : cn[g].srv = "ok" => (On /\ Reject => cn[g].nm)
NamedCert == \A g \in DOMAIN cn : (cn[g].cli = "ok" /\ ~ic[g].hit /\ ~cn[g].over) => cn[g].shown = ctx[IF On /\ cn[g].nm /\ cn[g].tab # None THEN cn[g].tab ELSE dflt].cert
Both == \A g \in DOMAIN cn : (cn[g].srv = "ok" /\ cn[g].cli # "run") => cn[g].cli = "ok"
Freed == <>[](AllOver /\ AllGone)
===============================================================================
