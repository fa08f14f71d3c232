-------------------------------- MODULE Idle --------------------------------
(* Time limits of connections.  A pending read or write that makes no progress *)
(* for the limit, times one plus the extra rounds of its connection, is ended: *)
(* the connection is shut down, or the reader that asks for it is told so.     *)
EXTENDS Conn
CONSTANTS Lim(_), Rounds(_), Asks(_), Ops,
          Slack,    \* how far a loop's clock may be behind
          Late      \* how late a loop may notice, each round
VARIABLES since,  \* end -> operation ("r", "w", "h": the handshake) -> when it was started, -1: none pending
          told,   \* end -> the pending read was told of a timeout already
          act,    \* end -> when anything last happened on its connection
          dead    \* end -> shut down for a timeout
ivars == <<since, told, act, dead>>
IInit == /\ since = [e \in Ends |-> [o \in Ops |-> -1]] /\ told = [e \in Ends |-> FALSE]
         /\ act = [e \in Ends |-> 0] /\ dead = [e \in Ends |-> FALSE]
Touch(e, t) == act' = [act EXCEPT ![e] = t, ![Peer(e)] = t]
Need(e) == IF told[e] THEN Lim(e) ELSE Lim(e) * (Rounds(e) + 1)
IStart(e, o, t) == /\ since[e][o] = -1 /\ since' = [since EXCEPT ![e][o] = t] /\ Touch(e, t) /\ UNCHANGED <<told, dead>>
IDone(e, o, t) == /\ since[e][o] # -1 /\ since' = [since EXCEPT ![e][o] = -1] /\ Touch(e, t)
                  /\ told' = [told EXCEPT ![e] = @ /\ o # "r"] /\ UNCHANGED dead
IOther(e, t) == Touch(e, t) /\ UNCHANGED <<since, told, dead>>
(* something is pending for too long *)
Idled(e, t) == \E o \in Ops : since[e][o] # -1 /\ t - since[e][o] >= Need(e) - Slack
(* the reader is told; it waits on, keep: with the same buffer *)
ITold(e, t, keep) ==
  /\ Asks(e) /\ since[e]["r"] # -1 /\ Idled(e, t)
  /\ since' = [since EXCEPT ![e]["r"] = IF keep THEN t ELSE -1] /\ told' = [told EXCEPT ![e] = TRUE]
  /\ Touch(e, t) /\ UNCHANGED dead
IExpire(e, t) ==
  /\ ~dead[e] /\ Idled(e, t)
  /\ ~(Asks(e) /\ since[e]["r"] # -1)
  /\ dead' = [dead EXCEPT ![e] = TRUE] /\ UNCHANGED <<since, told, act>>
Pending(e) == \E o \in Ops : since[e][o] # -1
(* at time t nothing is overdue *)
Timely(t) == \A e \in Ends : Pending(e) => t - act[e] <= (Lim(e) + Late) * (Rounds(e) + 1) + Late
=============================================================================
