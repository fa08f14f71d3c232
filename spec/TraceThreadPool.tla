-------------------------- MODULE TraceThreadPool --------------------------
(* start f job, o caller's thread, a 1: thread outside the pool; started f, a 1 failed, b 1 a thread could   *)
(* not be created meanwhile; call f, o selector, b thread; run f, o thread, b argument intact; cval f, b;    *)
(* fin f, o thread, a time; exit o thread, a time; close f 1 begin / 0 end, b quiet; flush (quiet) o minimum, a time; ret f, o selector, a 0 value in b / 1 failed / 2 no value wanted; count (quiet): f time, *)
(* o existing threads, a reported working, b reported idle; End.                                               *)
EXTENDS ThreadPool, TraceBase
vars == <<tid, pos, pvars>>
Init == TraceInit /\ PInit
Held == Cardinality({j \in Running : js[j].pool})
HeldAll == Cardinality(Running)
Next == \/ IsEvent("start") /\ E.b = 0 /\ Start(E.f, E.o, 0-1, E.a = 0)
        \/ IsEvent("start") /\ E.b = 1 /\ StartCalm(E.f, E.o, 0-1, E.a = 0)
        \/ IsEvent("started") /\ E.a = 0 /\ Started(E.f)
        \/ IsEvent("started") /\ E.a = 1 /\ E.b = 1 /\ Refused(E.f)
        \/ IsEvent("call") /\ Start(E.f, E.b, E.o, TRUE)
        \/ IsEvent("run") /\ E.b = 1 /\ Run(E.f, E.o)
        \/ IsEvent("cval") /\ Value(E.f, E.b)
        \/ IsEvent("fin") /\ Finish(E.f, E.o, E.a)
        \/ IsEvent("ret") /\ E.a = 0 /\ js[E.f].val = E.b /\ Return(E.f, E.o)
        \/ IsEvent("ret") /\ E.a = 2 /\ Return(E.f, E.o)
        \/ IsEvent("ret") /\ E.a = 1 /\ E.b = 1 /\ Refused(E.f)
        \/ IsEvent("count") /\ E.a = Held /\ E.b = E.o - HeldAll /\ E.b >= 0 /\ Quiet(E.b, E.f, IF Cfg.timer = 1 THEN 125000 ELSE 0)
        \/ IsEvent("exit") /\ Leave(E.o, E.a)
        \/ IsEvent("close") /\ E.f = 1 /\ CloseBegin
        \/ IsEvent("close") /\ E.f = 0 /\ CloseEnd(E.b = 1)
        \/ IsEvent("flush") /\ Flush(E.o, E.a, Cfg.timer = 0)
        \/ IsEvent("End") /\ E.a <= 0 /\ idle = <<>> /\ AllDone /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
=============================================================================
