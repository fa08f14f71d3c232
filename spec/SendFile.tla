------------------------------- MODULE SendFile -------------------------------
(* A connection end that sends bytes of a file: a write whose data is what the   *)
(* file holds from its position.                                                 *)
EXTENDS Stream
VARIABLES file,   \* end -> the bytes of its file
          fpos,   \* end -> position
          ask     \* end -> pending request: <<>> or <<asked, there>>
sfvars == <<strvars, file, fpos, ask>>
SfInit == StInit /\ fpos = All(0) /\ ask = All(<<>>)
Rest(e, n) == SubSeq(file[e], fpos[e] + 1, Min2(Len(file[e]), fpos[e] + n))
SendStart(e, n, full) == /\ WriteStart(e, Rest(e, n), full) /\ Set(ask, e, <<n, Len(Rest(e, n))>>) /\ UNCHANGED <<file, fpos>>
(* n bytes were sent; bad: reported as a failure *)
SendDone(e, n, bad) ==
  /\ ask[e] # <<>> /\ Set(ask, e, <<>>) /\ Set(fpos, e, fpos[e] + n) /\ UNCHANGED file
  /\ IF wp[e][2] = 1
     THEN /\ bad = (n < ask[e][1])
          (* short of what was asked for: the file ended, or the connection failed *)
          /\ WriteDone(e, n, n < ask[e][2])
     ELSE WriteDone(e, n, bad)
SfSeek(e, p) == ask[e] = <<>> /\ Set(fpos, e, p) /\ UNCHANGED <<strvars, file, ask>>
SfRead(e, len, n, d) == /\ ask[e] = <<>> /\ d = Rest(e, len) /\ n = Len(d) /\ Set(fpos, e, fpos[e] + n) /\ UNCHANGED <<strvars, file, ask>>
=============================================================================
