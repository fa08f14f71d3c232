---------------------------------- MODULE Tls ----------------------------------
(* TLS connections: a handshake comes before the streams of Stream; what is read  *)
(* there is what was written, whatever the records are.                           *)
EXTENDS Stream
VARIABLES hs   \* end -> "no", "run", "ok", "bad" or "raw" (does not talk TLS)
tlsvars == <<strvars, hs>>
TlsInit == StInit /\ hs = All("no")
HsStart(e) == open[e] /\ hs[e] \in {"no", "early"} /\ Set(hs, e, "run") /\ UNCHANGED strvars
Raw(e) == open[e] /\ hs[e] = "no" /\ Set(hs, e, "raw") /\ UNCHANGED strvars
(* match: the two ends accept each other *)
HsOk(e, match) == hs[e] = "run" /\ match /\ hs[Peer(e)] \in {"early", "run", "ok", "bad"} /\ Set(hs, e, "ok") /\ UNCHANGED strvars
(* the handshake fails: nobody knows what arrived *)
EarlyLost(e) == /\ wp[e] # <<>> /\ Set(q, e, From(wp[e][1], tk[e])) /\ Set(wp, e, <<>>) /\ Set(tk, e, 0) /\ Set(rst, Peer(e), TRUE)
                /\ UNCHANGED <<rp, fin, cut, ended, open, hup>>
HsBad(e, match) == /\ hs[e] = "run" /\ (~match \/ hs[Peer(e)] = "raw" \/ ReadMayFail(e)) /\ Set(hs, e, "bad")
                   /\ IF wp[e] = <<>> THEN UNCHANGED strvars ELSE EarlyLost(e)
(* bytes that go with the client's first message: they are part of the stream when the server accepts them *)
Early(e, d) == hs[e] = "no" /\ Set(hs, e, "early") /\ WriteStart(e, d, 1)
EarlyDone(e, n, acc) ==
  /\ hs[e] = "run" /\ wp[e] # <<>> /\ n >= tk[e] /\ n <= Len(wp[e][1])
  /\ (ended[e] => n = tk[e])
  /\ IF acc THEN Set(q, e, SubSeq(wp[e][1], tk[e] + 1, n)) ELSE tk[e] = 0 /\ UNCHANGED q
  /\ Set(wp, e, <<>>) /\ Set(tk, e, 0) /\ UNCHANGED <<rp, fin, cut, ended, open, hup, rst, hs>>
Ready(e) == hs[e] = "ok"
=============================================================================
