------------------------------- MODULE Stream -------------------------------
(* Connections as pairs of ends; end e writes into queue e, its peer reads it.  *)
(* The transfer itself happens between the start and the completion of an      *)
(* operation, so a reader may see part of a write that is not complete yet.    *)
EXTENDS ByteStr, Conn
VARIABLES q,     \* end -> bytes written by completed writes and not read yet
          wp,    \* end -> pending write: <<>> or <<data, full>>
          tk,    \* end -> bytes of the pending write the peer has read already
          rp,    \* end -> pending read: <<>> or <<size, full>>
          fin,   \* end -> 0 open, 1 finished writing, 2 shut down or closed
          cut,   \* end -> it shut its own connection down
          ended, \* end -> the peer has seen the end of this end's bytes
          open,  \* end -> not closed yet
          hup,   \* end -> waiting to be told that the peer hung up
          rst    \* end -> its peer left bytes of this end unread: the connection may be reset
strvars == <<q, wp, tk, rp, fin, cut, ended, open, hup, rst>>
All(v) == [e \in Ends |-> v]
StInit == /\ q = All("") /\ wp = All(<<>>) /\ tk = All(0) /\ rp = All(<<>>) /\ fin = All(0)
          /\ cut = All(FALSE) /\ ended = All(FALSE) /\ open = All(TRUE) /\ hup = All(FALSE) /\ rst = All(FALSE)
Set(f, e, v) == f' = [f EXCEPT ![e] = v]

(* when an operation may fail *)
WriteMayFail(e) == cut[e] \/ fin[Peer(e)] > 0
ReadMayFail(e) == cut[e] \/ fin[Peer(e)] = 2
(* when a read may report the end of the stream, after everything in rest *)
AtEnd(e, rest) == cut[e] \/ rst[e] \/ (fin[Peer(e)] > 0 /\ rest = "")

WriteStart(e, d, full) == /\ open[e] /\ wp[e] = <<>> /\ Set(wp, e, <<d, full>>) /\ Set(tk, e, 0)
                          /\ UNCHANGED <<q, rp, fin, cut, ended, open>> /\ Set(hup, e, FALSE)
                          /\ Set(rst, e, rst[e] \/ fin[Peer(e)] = 2)
(* n bytes were accepted, then the operation ended (bad: with an error) *)
WriteDone(e, n, bad) ==
  /\ wp[e] # <<>> /\ n >= tk[e] /\ n <= Len(wp[e][1])
  /\ (ended[e] => n = tk[e])
  /\ IF bad THEN WriteMayFail(e) /\ (wp[e][2] = 0 => n = 0)
            ELSE IF wp[e][2] = 1 THEN n = Len(wp[e][1]) ELSE (n = 0 => wp[e][1] = "")
  /\ Set(q, e, q[e] \o SubSeq(wp[e][1], tk[e] + 1, n)) /\ Set(wp, e, <<>>) /\ Set(tk, e, 0)
  /\ UNCHANGED <<rp, fin, cut, ended, open, hup, rst>>
ReadStart(e, n, full) == /\ open[e] /\ rp[e] = <<>> /\ Set(rp, e, <<n, full>>)
                         /\ UNCHANGED <<q, wp, tk, fin, cut, ended, open, rst>> /\ Set(hup, e, FALSE)
(* bytes the reader at e can have got: completed writes, then the pending one *)
Avail(e) == LET p == Peer(e) IN q[p] \o (IF wp[p] = <<>> THEN "" ELSE From(wp[p][1], tk[p]))
(* the read got the bytes d; how: 0 that is the result, 1 then the end of the stream, 2 then an error *)
ReadDone(e, d, how) ==
  LET p == Peer(e) IN
  /\ rp[e] # <<>> /\ IsPrefix(d, Avail(e)) /\ Len(d) <= rp[e][1]
  /\ LET inq == IF Len(d) <= Len(q[p]) THEN Len(d) ELSE Len(q[p])
     IN /\ Set(q, p, From(q[p], inq)) /\ Set(tk, p, tk[p] + Len(d) - inq)
  /\ IF rp[e][2] = 1 THEN (how = 0) = (Len(d) = rp[e][1]) ELSE (how = 0) = (d # "" \/ rp[e][1] = 0)
  /\ how = 1 => AtEnd(e, From(q[p], IF Len(d) <= Len(q[p]) THEN Len(d) ELSE Len(q[p])))
  /\ how = 2 => ReadMayFail(e)
  /\ Set(ended, p, ended[p] \/ (how = 1 /\ ~cut[e])) /\ Set(rp, e, <<>>)
  /\ UNCHANGED <<wp, fin, cut, open, hup, rst>>
(* the reader is told that nothing came in time: the read goes on, or is replaced by the next one *)
ReadTold(e, keep) == /\ rp[e] # <<>> /\ (IF keep THEN UNCHANGED rp ELSE Set(rp, e, <<>>))
                     /\ UNCHANGED <<q, wp, tk, fin, cut, ended, open, hup, rst>>
(* finish writing; shut the connection down; close it, when nothing is pending *)
Finish(e) == open[e] /\ Set(fin, e, IF fin[e] = 2 THEN 2 ELSE 1) /\ UNCHANGED <<q, wp, tk, rp, cut, ended, open, hup, rst>>
Leave(e) == Set(rst, Peer(e), rst[Peer(e)] \/ Avail(e) # "")
Shut(e) == open[e] /\ Set(fin, e, 2) /\ Set(cut, e, TRUE) /\ UNCHANGED <<q, wp, tk, rp, ended, open, hup>> /\ Leave(e)
Close(e) == /\ open[e] /\ wp[e] = <<>> /\ rp[e] = <<>> /\ Set(open, e, FALSE) /\ Set(fin, e, 2)
            /\ UNCHANGED <<q, wp, tk, rp, cut, ended, hup>> /\ Leave(e)
Watch(e) == open[e] /\ wp[e] = <<>> /\ rp[e] = <<>> /\ Set(hup, e, TRUE) /\ UNCHANGED <<q, wp, tk, rp, fin, cut, ended, open, rst>>
Unwatch(e) == Set(hup, e, FALSE) /\ UNCHANGED <<q, wp, tk, rp, fin, cut, ended, open, rst>>
HungUp(e) == hup[e] /\ (fin[Peer(e)] > 0 \/ cut[e]) /\ Set(hup, e, FALSE) /\ UNCHANGED <<q, wp, tk, rp, fin, cut, ended, open, rst>>
Quiet == \A e \in Ends : ~open[e] /\ wp[e] = <<>> /\ rp[e] = <<>>
=============================================================================
