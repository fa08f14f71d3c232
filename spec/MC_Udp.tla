-------------------------------- MODULE MC_Udp --------------------------------
(* A datagram socket as the library drives it: the kernel's queue, the readiness *)
(* edge (delivered once per arrival or shutdown), the ready mark that lets a     *)
(* receive be tried directly and is taken back when nothing was found, and the   *)
(* mark that the socket was hung up.  Senders and receivers go on at any time.   *)
EXTENDS Udp
CONSTANTS MaxSends, MaxRecvs
VARIABLES edge, ready, err, st, sends, recvs, good
vars == <<uvars, edge, ready, err, st, sends, recvs, good>>
S == 0
Init == UInit /\ edge = FALSE /\ ready = FALSE /\ err = FALSE /\ st = "idle" /\ sends = 0 /\ recvs = 0 /\ good = TRUE
Arrive(f, d, a) == /\ sends < MaxSends /\ sends' = sends + 1 /\ Send(f, S, d, a)
                   /\ edge' = (edge \/ box' # box) /\ UNCHANGED <<ready, err, st, recvs, good>>
Begin(n) == /\ st = "idle" /\ recvs < MaxRecvs /\ recvs' = recvs + 1 /\ RecvStart(S, n)
            /\ st' = (IF ready THEN "try" ELSE "wait") /\ UNCHANGED <<edge, ready, err, sends, good>>
(* one recvmsg: takes the oldest datagram of some sender whole, or finds nothing *)
Found == /\ st = "try" /\ st' = "idle" /\ UNCHANGED <<edge, ready, err, sends, recvs>>
         /\ \E f \in Socks : box[S][f] # <<>> /\
              LET g == Head(box[S][f])  d == Take(g[1], Min2(rp[S], Len(g[1]))) IN
              /\ good' = (good /\ ENABLED RecvOk(S, d, f, g[2])) /\ RecvOk(S, d, f, g[2])
Nothing == /\ st = "try" /\ (\A f \in Socks : box[S][f] = <<>>) /\ UNCHANGED <<edge, err, sends, recvs>>
           /\ IF err /\ shut[S] THEN /\ good' = (good /\ ENABLED RecvOver(S)) /\ RecvOver(S) /\ st' = "idle" /\ ready' = ready
              ELSE ready' = FALSE /\ st' = "wait" /\ UNCHANGED <<uvars, good>>
Deliver == /\ edge /\ edge' = FALSE /\ ready' = TRUE /\ err' = (err \/ shut[S])
           /\ st' = (IF st = "wait" THEN "try" ELSE st) /\ st # "try" /\ UNCHANGED <<uvars, sends, recvs, good>>
MShut == ~shut[S] /\ Shut(S) /\ edge' = TRUE /\ UNCHANGED <<ready, err, st, sends, recvs, good>>
Next == \/ \E f \in Socks, d \in {"", "a", "bc"}, a \in {"x", "y"} : Arrive(f, d, a)
        \/ \E n \in 1 .. 2 : Begin(n)
        \/ Found \/ Nothing \/ Deliver \/ MShut
Spec == Init /\ [][Next]_vars /\ WF_vars(Found) /\ WF_vars(Nothing) /\ WF_vars(Deliver)
Right == good
NotForgotten == ~edge /\ st # "try" => Settled
EndsAfterShut == shut[S] /\ ~edge /\ st # "try" => rp[S] = -1
Answered == (rp[S] # -1 /\ (shut[S] \/ \E f \in Socks : box[S][f] # <<>>)) ~> (rp[S] = -1)
=============================================================================
