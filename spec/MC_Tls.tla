-------------------------------- MODULE MC_Tls --------------------------------
EXTENDS Tls
CONSTANTS Datas, Sizes, MaxOps, Match, Accepts
VARIABLES sent, rcvd, ops
vars == <<tlsvars, sent, rcvd, ops>>
Init == TlsInit /\ sent = All("") /\ rcvd = All("") /\ ops = 0
H == UNCHANGED <<sent, rcvd, ops>>
D == UNCHANGED hs
Next == \E e \in Ends :
  \/ HsStart(e) /\ H
  \/ HsOk(e, Match) /\ (wp[e] = <<>>) /\ H
  \/ HsBad(e, Match) /\ Set(sent, e, sent[e] \o (IF wp[e] = <<>> THEN "" ELSE wp[e][1])) /\ UNCHANGED <<rcvd, ops>>
  \/ e = 1 /\ Raw(e) /\ H
  \/ \E d \in Datas : e = 0 /\ Early(e, d) /\ H
  \/ \E n \in 0 .. 2 : EarlyDone(e, n, Accepts) /\ Set(sent, e, IF Accepts THEN sent[e] \o Take(wp[e][1], n) ELSE sent[e]) /\ UNCHANGED <<rcvd, ops>>
  \/ \E d \in Datas, f \in {0, 1} : Ready(e) /\ ops < MaxOps /\ WriteStart(e, d, f) /\ D /\ ops' = ops + 1 /\ UNCHANGED <<sent, rcvd>>
  \/ \E n \in 0 .. 2, b \in BOOLEAN : hs[e] = "ok" /\ WriteDone(e, n, b) /\ D /\ Set(sent, e, sent[e] \o Take(wp[e][1], n)) /\ UNCHANGED <<rcvd, ops>>
  \/ \E n \in Sizes, f \in {0, 1} : Ready(e) /\ ops < MaxOps /\ ReadStart(e, n, f) /\ D /\ ops' = ops + 1 /\ UNCHANGED <<sent, rcvd>>
  \/ \E n \in 0 .. 2, h \in 0 .. 2 : /\ n <= Len(Avail(e)) /\ (Accepts \/ hs[Peer(e)] \in {"ok", "bad"}) /\ ReadDone(e, Take(Avail(e), n), h) /\ D
                                     /\ Set(rcvd, Peer(e), rcvd[Peer(e)] \o Take(Avail(e), n)) /\ UNCHANGED <<sent, ops>>
  \/ Ready(e) /\ wp[e] = <<>> /\ Finish(e) /\ D /\ H
  \/ hs[e] \notin {"run", "early"} /\ Shut(e) /\ D /\ H
  \/ hs[e] \notin {"run", "early"} /\ Close(e) /\ D /\ H
Spec == Init /\ [][Next]_vars
Pend(e) == IF wp[e] = <<>> THEN "" ELSE wp[e][1]
InOrder == \A e \in Ends : IsPrefix(rcvd[e], sent[e] \o Pend(e))
(* nothing is read or written by an end that has not finished the handshake *)
HsFirst == \A e \in Ends : /\ (rp[e] # <<>> \/ rcvd[Peer(e)] # "") => hs[e] = "ok"
                           /\ (wp[e] # <<>> => hs[e] \in {"early", "run", "ok"})
(* contexts that do not accept each other never exchange anything *)
Agree == \A e \in Ends : hs[e] = "ok" => Match
RawNever == \A e \in Ends : hs[e] = "raw" => hs[Peer(e)] # "ok"
Refused == ~Accepts => IsPrefix(rcvd[0], sent[0] \o (IF hs[0] = "ok" THEN Pend(0) ELSE ""))
(* the end of the stream comes after every byte, unless the connection was shut or reset *)
EndLast == \A e \in Ends : (ended[e] /\ ~rst[Peer(e)] /\ ~cut[Peer(e)]) => IsPrefix(sent[e], rcvd[e])
=============================================================================
