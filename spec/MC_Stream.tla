------------------------------ MODULE MC_Stream ------------------------------
EXTENDS Stream
CONSTANTS Datas, Sizes, MaxSent, MaxOps, Writers, Readers
VARIABLES sent, rcvd, ops, done
vars == <<strvars, sent, rcvd, ops, done>>
Init == StInit /\ sent = All("") /\ rcvd = All("") /\ ops = All(0) /\ done = All(0)
H == UNCHANGED <<sent, rcvd, ops, done>>
Next == \E e \in Ends :
  \/ \E d \in Datas, f \in {0, 1} : /\ e \in Writers /\ ops[e] < MaxOps /\ Len(sent[e]) + Len(d) <= MaxSent /\ WriteStart(e, d, f)
                                     /\ Set(ops, e, ops[e] + 1) /\ UNCHANGED <<sent, rcvd, done>>
  \/ \E n \in 0 .. 2, b \in BOOLEAN : /\ WriteDone(e, n, b) /\ Set(sent, e, sent[e] \o Take(wp[e][1], n))
                                      /\ Set(done, e, done[e] + 1) /\ UNCHANGED <<rcvd, ops>>
  \/ \E n \in Sizes, f \in {0, 1} : e \in Readers /\ ops[e] < MaxOps /\ ReadStart(e, n, f) /\ Set(ops, e, ops[e] + 1) /\ UNCHANGED <<sent, rcvd, done>>
  \/ \E n \in 0 .. 2, h \in 0 .. 2 : /\ n <= Len(Avail(e)) /\ ReadDone(e, Take(Avail(e), n), h)
                                     /\ Set(rcvd, Peer(e), rcvd[Peer(e)] \o Take(Avail(e), n))
                                     /\ Set(done, e, done[e] + 1) /\ UNCHANGED <<sent, ops>>
  \/ Finish(e) /\ H
  \/ Shut(e) /\ H
  \/ Close(e) /\ H
Spec == Init /\ [][Next]_vars
(* what was read is a prefix of what was written, pending writes included *)
InOrder == \A e \in Ends : IsPrefix(rcvd[e], sent[e] \o (IF wp[e] = <<>> THEN "" ELSE wp[e][1]))
(* bytes are never lost or doubled *)
Conserved == \A e \in Ends : rcvd[e] \o q[e] = sent[e] \o (IF wp[e] = <<>> THEN "" ELSE Take(wp[e][1], tk[e]))
(* the end of the stream comes after every byte, unless the connection was shut or reset *)
EndLast == \A e \in Ends : (ended[e] /\ ~rst[Peer(e)] /\ ~cut[Peer(e)]) => IsPrefix(sent[e], rcvd[e])
(* each operation completes exactly once *)
Once == \A e \in Ends : done[e] + (IF wp[e] = <<>> THEN 0 ELSE 1) + (IF rp[e] = <<>> THEN 0 ELSE 1) = ops[e]
(* an orderly connection never fails *)
NoSpurious == [][\A e \in Ends : (done'[e] # done[e] /\ fin[Peer(e)] = 0 /\ ~cut[e]) =>
                    (wp[e] = wp'[e] => (rcvd'[Peer(e)] # rcvd[Peer(e)] \/ rp[e][1] = 0))]_vars
=============================================================================
