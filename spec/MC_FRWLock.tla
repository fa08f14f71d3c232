---------------------------- MODULE MC_FRWLock ----------------------------
EXTENDS FRWLock
CONSTANT Fibers
Idle(f) == f \notin readers \cup writer \cup wr \cup ww
Next == \E f \in Fibers :
  \/ Idle(f) /\ (RequestRead(f) \/ RequestWrite(f))
  \/ GrantRead(f) \/ GrantWrite(f) \/ ReleaseRead(f) \/ ReleaseWrite(f)
GrantAny == \E g \in Fibers : GrantRead(g) \/ GrantWrite(g)
Spec == RWInit /\ [][Next]_rwvars
        /\ \A f \in Fibers : WF_rwvars(ReleaseRead(f)) /\ WF_rwvars(ReleaseWrite(f))
        /\ WF_rwvars(GrantAny)
Exclusion == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
OnePlace == \A f \in Fibers : Cardinality({s \in {1,2,3,4} : f \in <<readers, writer, wr, ww>>[s]}) <= 1
(* while readers hold and a writer waits, no reader that arrives now is admitted *)
NoOvertake == [][\A f \in Fibers : (ww # {} /\ Idle(f)) => f \notin readers']_rwvars
(* somebody can always be served when the lock is free *)
NoForgotten == (readers = {} /\ writer = {} /\ wr \cup ww # {}) => ENABLED GrantAny
FreeGetsTaken == (wr \cup ww # {} /\ readers = {} /\ writer = {}) ~> (readers \cup writer # {})
=============================================================================
