---------------------------- MODULE TraceSpinRW ----------------------------
(* codes: 1 read (a: bit set of writers waiting behind readers), 2 write, 3 read unlock, 4 write unlock *)
EXTENDS SpinRW, TraceBase
VARIABLE pend
vars == <<tid, pos, svars, pend>>
Bits(m) == {t \in 1..Cfg.n : (m \div (2^t)) % 2 = 1}
Init == TraceInit /\ SInit /\ pend = [t \in 1..Cfg.n |-> 0]
Inv == /\ IsEvent("inv") /\ pend[E.f] = 0
       /\ pend' = [pend EXCEPT ![E.f] = E.o]
       /\ CASE E.o = 1 -> AskRead(E.f, Bits(E.a) \cap wq) [] E.o = 2 -> AskWrite(E.f) [] OTHER -> UNCHANGED svars
Step(t) == /\ Silent
           /\ \/ EnterRead(t) /\ UNCHANGED pend
              \/ EnterWrite(t) /\ UNCHANGED pend
              \/ pend[t] = 3 /\ LeaveRead(t) /\ UNCHANGED pend
              \/ pend[t] = 4 /\ LeaveWrite(t) /\ UNCHANGED pend
Ret == /\ IsEvent("ret") /\ pend[E.f] = E.o
       /\ CASE E.o = 1 -> E.f \in rd [] E.o = 2 -> E.f \in wrt [] E.o = 3 -> E.f \notin rd [] E.o = 4 -> E.f \notin wrt
       /\ pend' = [pend EXCEPT ![E.f] = 0] /\ UNCHANGED svars
(* b = 1: all threads finished; a = 1: the lock words are back to free *)
End == /\ IsEvent("End") /\ E.b = 1 /\ E.a = 1 /\ \A t \in DOMAIN pend : pend[t] = 0
       /\ rd = {} /\ wrt = {} /\ UNCHANGED <<svars, pend>>
Next == Inv \/ Ret \/ End \/ \E t \in DOMAIN pend : Step(t)
Spec == Init /\ [][Next]_vars
=============================================================================
