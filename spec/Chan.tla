------------------------------- MODULE Chan -------------------------------
(* Rendezvous channel between fibers of one selector.                        *)
EXTENDS Integers, FiniteSets
VARIABLES snd,    \* suspended senders: op -> data
          rcv,    \* suspended receivers
          held,   \* senders whose data was taken by a receiver that has not reported yet
          out,    \* completed operations: op -> <<result, data>>
          closed
cvars == <<snd, rcv, held, out, closed>>
CInit == snd = <<>> /\ rcv = {} /\ held = {} /\ out = <<>> /\ closed = FALSE
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, s) == [y \in (DOMAIN f) \ s |-> f[y]]
PutAll(f, s, v) == [y \in (DOMAIN f) \cup s |-> IF y \in s THEN v ELSE f[y]]

Send(x, d) ==
  \/ closed /\ out' = Put(out, x, <<0-1, 0>>) /\ UNCHANGED <<snd, rcv, held, closed>>
  \/ /\ ~closed /\ rcv # {}
     /\ \E r \in rcv : rcv' = rcv \ {r} /\ out' = Put(Put(out, r, <<0, d>>), x, <<0, 0>>)
     /\ UNCHANGED <<snd, held, closed>>
  \/ ~closed /\ rcv = {} /\ snd' = Put(snd, x, d) /\ UNCHANGED <<rcv, held, out, closed>>
(* manual: the receiver will report to the sender itself *)
Recv(x, manual) ==
  \/ /\ DOMAIN snd # {}
     /\ \E s \in DOMAIN snd :
          /\ snd' = Del(snd, {s})
          /\ IF manual THEN held' = held \cup {s} /\ out' = Put(out, x, <<0, snd[s]>>)
                       ELSE UNCHANGED held /\ out' = Put(Put(out, x, <<0, snd[s]>>), s, <<0, 0>>)
     /\ UNCHANGED <<rcv, closed>>
  \/ DOMAIN snd = {} /\ closed /\ out' = Put(out, x, <<0-1, 0>>) /\ UNCHANGED <<snd, rcv, held, closed>>
  \/ DOMAIN snd = {} /\ ~closed /\ rcv' = rcv \cup {x} /\ UNCHANGED <<snd, held, out, closed>>
Tell(s, v) == s \in held /\ held' = held \ {s} /\ out' = Put(out, s, <<v, 0>>) /\ UNCHANGED <<snd, rcv, closed>>
Close == /\ closed' = TRUE
         /\ out' = PutAll(out, DOMAIN snd \cup rcv, <<0-1, 0>>)
         /\ snd' = <<>> /\ rcv' = {} /\ UNCHANGED held
=============================================================================
