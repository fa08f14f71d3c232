------------------------------- MODULE MC_TlsIo -------------------------------
EXTENDS TlsIo
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + Bytes(Tail(s))
(* nothing waits for the socket while there is something to read: decrypted bytes or records *)
NeverStuck == \A e \in Ends : rs[e] = "wait" => dec[e] = 0 /\ ch[Peer(e)] = <<>>
WriterStuck == \A e \in Ends : ws[e] = "wait" => Full(e)
(* every byte is in exactly one place, and they come in the order of writing *)
Conserved == \A e \in Ends : got[Peer(e)] + dec[Peer(e)] + Bytes(ch[e]) = sent[e]
InOrder == \A e \in Ends : \A i \in 1 .. Len(ch[e]) : ch[e][i][1] = "d" => ch[e][i][2] = got[Peer(e)] + dec[Peer(e)] + Bytes(SubSeq(ch[e], 1, i - 1))
(* no data before the handshake; the end comes last *)
HsFirst == \A e \in Ends : (sent[e] > 0 => Done(e)) /\ (got[e] > 0 => Done(e))
EndLast == \A e \in Ends : told[e] => got[e] = Total
Agree == \A e \in Ends : (Done(e) => hs[Peer(e)] >= Len(Script(Peer(e))) - 2)
Finishes == <>(\A e \in Ends : Done(e) /\ told[e] /\ got[e] = Total)
=============================================================================
