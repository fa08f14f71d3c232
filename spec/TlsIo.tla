--------------------------------- MODULE TlsIo ---------------------------------
(* How a TLS connection is driven: one session per end that turns records into    *)
(* bytes, over a bounded channel whose readiness is told once (edge triggered).    *)
(* Bytes are numbered; a record is <<kind, first, n>>: "h" handshake, "t" session  *)
(* ticket, "d" data, "n" end of the stream.                                        *)
EXTENDS Conn, Sequences, FiniteSets
CONSTANTS Cap,     \* records a channel holds
          Total,   \* bytes each end writes
          Rec,     \* the sizes of records
          Asks     \* the sizes of reads
VARIABLES hs,    \* end -> steps of the handshake that are over; Steps = done
          ch,    \* end -> its records in transit
          rr, wr,\* end -> the socket is believed to be readable, writable
          op,    \* end -> the pending read: <<>> or <<"hs">> or <<size>>
          rs,    \* end -> "no", "wait" for an edge, "run" has its turn
          wop,   \* end -> the pending write: <<>>, <<"hs">>, <<record>>
          ws,    \* end -> like rs
          dec,   \* end -> bytes that are decrypted and not read
          sent, got, over, told
vars == <<hs, ch, rr, wr, op, rs, wop, ws, dec, sent, got, over, told>>
(* the steps: the client sends first; the server ends with a ticket *)
Script(e) == IF e = 0 THEN <<"send", "recv", "send">> ELSE <<"recv", "send", "recv", "ticket">>
Done(e) == hs[e] = Len(Script(e))
All(v) == [e \in Ends |-> v]
Init == /\ hs = All(0) /\ ch = All(<<>>) /\ rr = All(FALSE) /\ wr = All(TRUE) /\ op = All(<<>>) /\ rs = All("no")
        /\ wop = All(<<>>) /\ ws = All("no") /\ dec = All(0) /\ sent = All(0) /\ got = All(0) /\ over = All(FALSE) /\ told = All(FALSE)
Set(f, e, v) == f' = [f EXCEPT ![e] = v]
(* e puts a record on the channel: the peer sees an edge *)
Put(e, r) == /\ Len(ch[e]) < Cap /\ Set(ch, e, Append(ch[e], r)) /\ Set(rr, Peer(e), TRUE)
             /\ Set(rs, Peer(e), IF rs[Peer(e)] = "wait" THEN "run" ELSE rs[Peer(e)])
Full(e) == Len(ch[e]) = Cap
(* e takes the first record of the peer: the peer sees an edge when the channel was full *)
Pop(e) == /\ ch[Peer(e)] # <<>> /\ Set(ch, Peer(e), Tail(ch[Peer(e)]))
          /\ IF Full(Peer(e)) THEN Set(wr, Peer(e), TRUE) /\ Set(ws, Peer(e), IF ws[Peer(e)] = "wait" THEN "run" ELSE ws[Peer(e)])
                              ELSE UNCHANGED <<wr, ws>>
Step(e) == Script(e)[hs[e] + 1]
Kind(e) == IF Step(e) = "ticket" THEN "t" ELSE "h"
Idle(e) == rs[e] = "no" /\ ws[e] = "no"
Running(e) == ~Done(e) /\ (Idle(e) \/ (op[e] = <<"hs">> /\ rs[e] = "run") \/ (wop[e] = <<"hs">> /\ ws[e] = "run"))
(* one step of the handshake, or waiting for the socket *)
HsSend(e) == /\ Running(e) /\ Step(e) # "recv"
             /\ IF Full(e)
                THEN /\ Set(wop, e, <<"hs">>) /\ Set(ws, e, "wait") /\ Set(wr, e, FALSE) /\ Set(op, e, <<>>) /\ Set(rs, e, "no") /\ UNCHANGED <<ch, rr, hs>>
                ELSE /\ ch' = [ch EXCEPT ![e] = Append(@, <<Kind(e), 0, 0>>)] /\ rr' = [rr EXCEPT ![Peer(e)] = TRUE]
                     /\ rs' = [rs EXCEPT ![Peer(e)] = IF @ = "wait" THEN "run" ELSE @, ![e] = "no"]
                     /\ Set(op, e, <<>>) /\ Set(wop, e, <<>>) /\ Set(ws, e, "no") /\ Set(hs, e, hs[e] + 1) /\ UNCHANGED wr
             /\ UNCHANGED <<dec, sent, got, over, told>>
HsRecv(e) == /\ Running(e) /\ Step(e) = "recv"
             /\ IF ch[Peer(e)] = <<>>
                THEN /\ Set(op, e, <<"hs">>) /\ Set(rs, e, "wait") /\ Set(rr, e, FALSE) /\ Set(wop, e, <<>>) /\ Set(ws, e, "no") /\ UNCHANGED <<ch, wr, hs>>
                ELSE /\ Set(ch, Peer(e), Tail(ch[Peer(e)])) /\ Set(op, e, <<>>) /\ Set(rs, e, "no") /\ Set(hs, e, hs[e] + 1)
                     /\ wop' = [wop EXCEPT ![e] = <<>>]
                     /\ wr' = [wr EXCEPT ![Peer(e)] = @ \/ Full(Peer(e))]
                     /\ ws' = [ws EXCEPT ![e] = "no", ![Peer(e)] = IF @ = "wait" /\ Full(Peer(e)) THEN "run" ELSE @]
                     /\ UNCHANGED rr
             /\ UNCHANGED <<dec, sent, got, over, told>>
(* the application reads *)
Read(e, n) == /\ Done(e) /\ rs[e] = "no" /\ ~told[e]
              /\ Set(op, e, <<n>>) /\ Set(rs, e, IF dec[e] > 0 \/ rr[e] THEN "run" ELSE "wait")
              /\ UNCHANGED <<hs, ch, rr, wr, wop, ws, dec, sent, got, over, told>>
Deliver(e, have) == LET n == IF have < op[e][1] THEN have ELSE op[e][1]
                    IN Set(got, e, got[e] + n) /\ Set(dec, e, have - n) /\ Set(op, e, <<>>)
ReadRun(e) ==
  /\ Done(e) /\ rs[e] = "run"
  /\ IF dec[e] > 0 THEN Deliver(e, dec[e]) /\ Set(rs, e, "no") /\ UNCHANGED <<ch, wr, ws, rr, told>>
     ELSE IF ch[Peer(e)] = <<>> THEN Set(rr, e, FALSE) /\ Set(rs, e, "wait") /\ UNCHANGED <<ch, wr, ws, op, dec, got, told>>
     ELSE /\ Pop(e) /\ UNCHANGED rr
          /\ LET r == Head(ch[Peer(e)]) IN
             CASE r[1] = "d" -> Deliver(e, r[3]) /\ Set(rs, e, "no") /\ UNCHANGED told
               [] r[1] = "n" -> Set(told, e, TRUE) /\ Set(op, e, <<>>) /\ Set(rs, e, "no") /\ UNCHANGED <<dec, got>>
               [] OTHER -> UNCHANGED <<op, rs, dec, got, told>>
  /\ UNCHANGED <<hs, wop, sent, over>>
(* the application writes n bytes in one record; a record that does not fit is written again *)
Write(e, n) == /\ Done(e) /\ ws[e] = "no" /\ ~over[e] /\ sent[e] + n <= Total
               /\ Set(wop, e, <<"d", sent[e], n>>) /\ Set(ws, e, IF wr[e] THEN "run" ELSE "wait")
               /\ UNCHANGED <<hs, ch, rr, wr, op, rs, dec, sent, got, over, told>>
End(e) == /\ Done(e) /\ ws[e] = "no" /\ ~over[e] /\ sent[e] = Total
          /\ Set(wop, e, <<"n", 0, 0>>) /\ Set(ws, e, IF wr[e] THEN "run" ELSE "wait") /\ Set(over, e, TRUE)
          /\ UNCHANGED <<hs, ch, rr, wr, op, rs, dec, sent, got, told>>
WriteRun(e) == /\ Done(e) /\ ws[e] = "run"
               /\ IF Full(e) THEN Set(wr, e, FALSE) /\ Set(ws, e, "wait") /\ UNCHANGED <<ch, rr, rs, wop, sent>>
                  ELSE Put(e, wop[e]) /\ Set(sent, e, sent[e] + wop[e][3]) /\ Set(wop, e, <<>>) /\ Set(ws, e, "no") /\ UNCHANGED wr
               /\ UNCHANGED <<hs, op, dec, got, over, told>>
Next == \E e \in Ends : \/ HsSend(e) \/ HsRecv(e) \/ ReadRun(e) \/ WriteRun(e) \/ End(e)
                        \/ \E n \in Asks : Read(e, n)
                        \/ \E n \in Rec : Write(e, n)
Live(e) == /\ WF_vars(HsSend(e)) /\ WF_vars(HsRecv(e)) /\ WF_vars(ReadRun(e)) /\ WF_vars(WriteRun(e)) /\ WF_vars(End(e))
           /\ WF_vars(\E n \in Asks : Read(e, n)) /\ WF_vars(\E n \in Rec : Write(e, n))
Spec == Init /\ [][Next]_vars /\ \A e \in Ends : Live(e)
=============================================================================
