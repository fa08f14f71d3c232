-------------------------------- MODULE TlsConf --------------------------------
(* TLS contexts and what a handshake takes from them: which certificate a server shows, which version and     *)
(* application protocol the ends speak, who accepts whom.                                                     *)
(* ctx: context -> record; dflt: the listener's context; cn: group -> its current connection;                 *)
(* sni: object the name callback gave -> group and state of its connection                                    *)
(* ses: group -> the session of its last good connection: the certificate shown, the listener's context and its *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS KeyOf, Issuer   \* certificate + 1 -> its key, its issuer
VARIABLES ctx, dflt, cn, sni, ses
cvars == <<ctx, dflt, cn, sni, ses>>
CInit == ctx = <<>> /\ dflt = -1 /\ cn = <<>> /\ sni = <<>> /\ ses = <<>>
PutC(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
Range(s) == {s[i] : i \in 1..Len(s)}
None == -1
NoPro == <<>>
(* a chain of issuers from a certificate to one that is trusted *)
Roots(trust) == {c \in Range(trust) : Issuer[c + 1] = c}
RECURSIVE Leads(_, _, _, _)
Leads(c, given, trust, n) ==
  \/ c \in Roots(trust)
  \/ n > 0 /\ Issuer[c + 1] # c /\ (Issuer[c + 1] \in Roots(trust) \/ (Issuer[c + 1] \in given /\ Leads(Issuer[c + 1], given, trust, n - 1)))
Trusts(trust, cert, chain) == cert # None /\ Leads(cert, Range(chain), trust, 4)
(* a certificate can be used with its own key only, and nothing may be missing or spoilt *)
Usable(cert, key, bad) == bad = 0 /\ KeyOf[cert + 1] = key
Make(x, r, cabad, ok) ==
  /\ x \notin DOMAIN ctx
  /\ ok <=> (cabad = 0 /\ (r.srv => Usable(r.cert, r.key, r.bad)))
  /\ ctx' = (IF ok THEN PutC(ctx, x, r) ELSE ctx) /\ UNCHANGED <<dflt, cn, sni, ses>>
(* another certificate; a context that refused one is not used any more *)
Idle == \A g \in DOMAIN cn : cn[g].over
Own(x, cert, key, chain, bad, ok) ==
  /\ x \in DOMAIN ctx /\ Idle /\ ok <=> Usable(cert, key, bad)
  /\ ctx' = (IF ok THEN [ctx EXCEPT ![x].cert = cert, ![x].chain = chain] ELSE [y \in (DOMAIN ctx) \ {x} |-> ctx[y]])
  /\ UNCHANGED <<dflt, cn, sni, ses>>
Default(x) == x \in DOMAIN ctx /\ Idle /\ dflt' = x /\ UNCHANGED <<ctx, cn, sni, ses>>
Try(g, r) ==
  /\ (g \in DOMAIN cn => cn[g].over)
  /\ cn' = PutC(cn, g, [c |-> r.c, nm |-> r.nm, tab |-> r.tab, obj |-> r.obj, res |-> r.res, asked |-> FALSE, got |-> 0, cli |-> "run", srv |-> "run", shown |-> None, over |-> FALSE])
  /\ UNCHANGED <<ctx, dflt, sni, ses>>
(* the server asks whose name it is *)
Ask(g, o, on) ==
  /\ g \in DOMAIN cn /\ ~cn[g].over /\ on /\ cn[g].nm /\ cn[g].got = 0 /\ cn[g].srv = "run"
  /\ (o # 0) <=> cn[g].obj
  /\ o # 0 => o \notin DOMAIN sni
  /\ cn' = [cn EXCEPT ![g].asked = TRUE, ![g].got = o]
  /\ sni' = (IF o # 0 THEN PutC(sni, o, <<g, "held">>) ELSE sni) /\ UNCHANGED <<ctx, dflt, ses>>
Serving(g, on) == IF on /\ cn[g].nm /\ cn[g].tab # None THEN cn[g].tab ELSE dflt
Min2(a, b) == IF a < b THEN a ELSE b
Ver(g) == LET c == ctx[cn[g].c]
              s == ctx[dflt]
              h == Min2(c.hi, s.hi)
          IN IF h >= c.lo /\ h >= s.lo THEN h ELSE 0
(* the first of the server's that the client offers, too *)
FirstOf(mine, theirs) == IF \E i \in 1..Len(mine) : mine[i] \in Range(theirs)
                         THEN mine[CHOOSE i \in 1..Len(mine) : mine[i] \in Range(theirs) /\ \A j \in 1..(i - 1) : mine[j] \notin Range(theirs)] ELSE None
Proto(g, on) == LET c == ctx[cn[g].c]
                    s == ctx[Serving(g, on)]
                IN IF c.al = NoPro \/ s.al = NoPro THEN None
                   ELSE IF ~c.npn THEN FirstOf(s.al, c.al)
                   ELSE IF Ver(g) >= 4 THEN None ELSE IF FirstOf(s.al, c.al) = None THEN c.al[1] ELSE FirstOf(s.al, c.al)
Cipher(g, on) == FirstOf(ctx[Serving(g, on)].ci, ctx[cn[g].c].ci)
Needs == ctx[dflt].trust # <<>>
(* the two ends agree, as far as the client sees; and as far as the server sees *)
ClientKnown(g, on) == ~Needs \/ Trusts(ctx[Serving(g, on)].trust, ctx[cn[g].c].cert, ctx[cn[g].c].chain)
ClientOk(g, on, reject) ==
  LET c == ctx[cn[g].c]
      s == ctx[Serving(g, on)]
  IN /\ Ver(g) # 0
     /\ ~(on /\ reject /\ ~cn[g].nm)
     /\ c.trust # <<>> => Trusts(c.trust, s.cert, s.chain)
     /\ Ver(g) < 4 => ClientKnown(g, on)
ServerOk(g, on, reject) == ClientOk(g, on, reject) /\ ClientKnown(g, on)
(* a session goes on with the certificate it began with: nothing of the listener's has changed since          *)
Resumed(g, cert) ==
  /\ g \in DOMAIN ses /\ cert = ses[g].cert /\ ses[g].dflt = dflt /\ ses[g].dcert = ctx[dflt].cert
CliFits(g, r, on, reject) ==
  /\ g \in DOMAIN cn /\ cn[g].cli = "run"
  /\ (ClientOk(g, on, reject) /\ cn[g].srv # "bad") => r.ok       \* refused while it was still speaking: either
  /\ r.ok => ClientOk(g, on, reject) \/ (r.re /\ Ver(g) # 0 /\ ~(on /\ reject /\ ~cn[g].nm))
  /\ r.ok => LET s == ctx[Serving(g, on)]
             IN /\ (on /\ cn[g].nm) => cn[g].asked
                /\ (r.re => cn[g].res /\ Resumed(g, r.cert)) /\ (~r.re => r.cert = s.cert) /\ (~r.re => r.chain = s.chain)
                /\ r.p = Proto(g, on) /\ r.v = Ver(g) /\ ((Ver(g) = 3 /\ ~r.re) => r.ci = Cipher(g, on))
Cli(g, r, on, reject) ==
  /\ CliFits(g, r, on, reject)
  /\ cn' = [cn EXCEPT ![g].cli = IF r.ok THEN "ok" ELSE "bad", ![g].shown = r.cert] /\ UNCHANGED <<ctx, dflt, sni, ses>>
SrvFits(g, r, on, reject) ==
  /\ g \in DOMAIN cn /\ cn[g].srv = "run"
  /\ ServerOk(g, on, reject) => r.ok
  /\ r.ok => ServerOk(g, on, reject) \/ (cn[g].res /\ Ver(g) # 0 /\ ~(on /\ reject /\ ~cn[g].nm))
  /\ r.ok => /\ (on /\ cn[g].nm) => cn[g].asked
             /\ r.p = Proto(g, on) /\ r.v = Ver(g)
             /\ r.cert = (IF Needs THEN ctx[cn[g].c].cert ELSE None)
Srv(g, r, on, reject) ==
  /\ SrvFits(g, r, on, reject)
  /\ cn' = [cn EXCEPT ![g].srv = IF r.ok THEN "ok" ELSE "bad"] /\ UNCHANGED <<ctx, dflt, sni, ses>>
(* a byte there and back *)
Exchange(g, ok) ==
  /\ g \in DOMAIN cn /\ cn[g].cli = "ok" /\ ok = (cn[g].srv = "ok")
  /\ ses' = (IF ok THEN PutC(ses, g, [cert |-> cn[g].shown, dflt |-> dflt, dcert |-> ctx[dflt].cert]) ELSE ses)
  /\ UNCHANGED <<ctx, dflt, cn, sni>>
Bye(g) == /\ g \in DOMAIN cn /\ ~cn[g].over /\ cn[g].srv # "run"
          /\ sni' = [o \in DOMAIN sni |-> IF sni[o] = <<g, "held">> THEN <<g, "loose">> ELSE sni[o]]
          /\ cn' = [cn EXCEPT ![g].over = TRUE] /\ UNCHANGED <<ctx, dflt, ses>>
(* what the callback gave is let go once, with the connection *)
Drop(o) == o \in DOMAIN sni /\ sni[o][2] = "loose" /\ sni' = [sni EXCEPT ![o] = <<@[1], "gone">>] /\ UNCHANGED <<ctx, dflt, cn, ses>>
AllGone == \A o \in DOMAIN sni : sni[o][2] = "gone"
AllOver == \A g \in DOMAIN cn : cn[g].over /\ cn[g].cli # "run"
================================================================================
