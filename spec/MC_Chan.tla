------------------------------ MODULE MC_Chan ------------------------------
EXTENDS Chan
CONSTANT Ops
VARIABLES started, sent, got
vars == <<cvars, started, sent, got>>
Init == CInit /\ started = {} /\ sent = {} /\ got = <<>>
Next ==
  \/ \E x \in Ops \ started : /\ started' = started \cup {x}
       /\ \/ Send(x, x) /\ sent' = sent \cup {x} /\ UNCHANGED got
          \/ (\E m \in BOOLEAN : Recv(x, m)) /\ UNCHANGED <<sent, got>>
  \/ (\E s \in held : Tell(s, 7)) /\ UNCHANGED <<started, sent, got>>
  \/ ~closed /\ Close /\ UNCHANGED <<started, sent, got>>
Spec == Init /\ [][Next]_vars
Received == {x \in DOMAIN out : out[x][1] = 0 /\ out[x][2] # 0}
NoDup == \A x, y \in Received : x # y => out[x][2] # out[y][2]
OnlySent == \A x \in Received : out[x][2] \in sent
(* a sender that completed with success was received *)
SendMeansReceived == \A s \in sent : (s \in DOMAIN out /\ out[s][1] >= 0) => \E x \in Received : out[x][2] = s
NotBoth == ~(DOMAIN snd # {} /\ rcv # {})
ClosedReleases == closed => (rcv = {} /\ DOMAIN snd = {})
=============================================================================
