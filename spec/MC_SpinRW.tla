----------------------------- MODULE MC_SpinRW -----------------------------
(* All requests, with any choice of the writers a reader finds waiting.      *)
EXTENDS SpinRW
CONSTANT Threads
Idle(t) == t \notin rd \cup wrt \cup rq \cup wq
Next == \E t \in Threads :
  \/ Idle(t) /\ (\E b \in (IF rd # {} THEN {wq, {}} ELSE {{}}) : AskRead(t, b))
  \/ Idle(t) /\ AskWrite(t)
  \/ EnterRead(t) \/ EnterWrite(t) \/ LeaveRead(t) \/ LeaveWrite(t)
Spec == SInit /\ [][Next]_svars
Exclusion == Cardinality(wrt) <= 1 /\ (wrt # {} => rd = {})
(* the preference never blocks everybody: a free lock can always be entered *)
NoDeadlock == (rd = {} /\ wrt = {} /\ rq \cup wq # {}) => ENABLED (\E t \in Threads : EnterRead(t) \/ EnterWrite(t))
BlockSound == \A t \in DOMAIN block : t \in rq => block[t] \subseteq wq
=============================================================================
