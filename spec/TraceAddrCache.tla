--------------------------- MODULE TraceAddrCache ---------------------------
(* qb f query, o key, a time; qe f query, o address or 0, a time; inv f lookup, o key, a selector, b time;   *)
(* ans f lookup, o selector (-2: the caller's thread), a address or 0, b 1 a thread could not be created      *)
(* meanwhile; peek f lookup, a address or 0; rel f lookup; free f address; flush; End.                       *)
EXTENDS AddrCache, TraceBase
vars == <<tid, pos, avars>>
Strict == Cfg.slow = 0
Init == TraceInit /\ AInit
Next == \/ IsEvent("qb") /\ QueryBegin(E.f, E.o, E.a, Strict)
        \/ IsEvent("qe") /\ QueryEnd(E.f, E.o, E.a)
        \/ IsEvent("inv") /\ Lookup(E.f, E.o, E.a, E.b)
        \/ IsEvent("ans") /\ Answer(E.f, E.a, E.o, Strict, E.b = 1)
        \/ IsEvent("peek") /\ Peek(E.f, E.a, Strict)
        \/ IsEvent("rel") /\ Release(E.f)
        \/ IsEvent("free") /\ Free(E.f)
        \/ IsEvent("flush") /\ Forget
        \/ IsEvent("End") /\ E.b = 0 /\ AllAnswered /\ AllFreed /\ UNCHANGED avars
Spec == Init /\ [][Next]_vars
=============================================================================
