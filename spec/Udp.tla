---------------------------------- MODULE Udp ----------------------------------
(* Datagram sockets: what was sent to a socket waits there, in the order of its   *)
(* sender; a receive takes one of them whole.                                     *)
EXTENDS ByteStr
CONSTANTS Socks
VARIABLES box,    \* socket -> sender -> datagrams waiting: <<data, address sent to>>
          rp,     \* socket -> pending receive: -1 or the room
          shut,   \* socket -> shut down
          open    \* socket -> not closed
uvars == <<box, rp, shut, open>>
UInit == /\ box = [s \in Socks |-> [f \in Socks |-> <<>>]] /\ rp = [s \in Socks |-> -1]
         /\ shut = [s \in Socks |-> FALSE] /\ open = [s \in Socks |-> TRUE]
(* what is sent to a socket that was shut down may still wait there, or be gone   *)
Send(f, t, d, dst) == /\ \/ open[t] /\ box' = [box EXCEPT ![t][f] = Append(@, <<d, dst>>)]
                         \/ (~open[t] \/ shut[t]) /\ box' = box
                      /\ UNCHANGED <<rp, shut, open>>
RecvStart(s, n) == open[s] /\ rp[s] = -1 /\ rp' = [rp EXCEPT ![s] = n] /\ UNCHANGED <<box, shut, open>>
(* d: the datagram's bytes as far as there is room; f: who sent it; dst: where to, or "" where nobody asked for it *)
RecvOk(s, d, f, dst) ==
  /\ rp[s] # -1 /\ box[s][f] # <<>>
  /\ LET g == Head(box[s][f]) IN d = Take(g[1], Min2(rp[s], Len(g[1]))) /\ (dst # "" => dst = g[2])
  /\ box' = [box EXCEPT ![s][f] = Tail(@)] /\ rp' = [rp EXCEPT ![s] = -1] /\ UNCHANGED <<shut, open>>
(* after the socket was shut down *)
RecvOver(s) == rp[s] # -1 /\ shut[s] /\ rp' = [rp EXCEPT ![s] = -1] /\ UNCHANGED <<box, shut, open>>
Shut(s) == shut' = [shut EXCEPT ![s] = TRUE] /\ UNCHANGED <<box, rp, open>>
Close(s) == open[s] /\ rp[s] = -1 /\ open' = [open EXCEPT ![s] = FALSE] /\ UNCHANGED <<box, rp, shut>>
(* nobody waits while there is something to receive *)
Settled == \A s \in Socks : rp[s] # -1 => \A f \in Socks : box[s][f] = <<>>
=============================================================================
