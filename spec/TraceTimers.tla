---------------------------- MODULE TraceTimers ----------------------------
(* set f timer, o loop, a 1 local, b delay, c clock when the call was made, m steady time; done f, c clock   *)
(* when the call had returned; fire f, o loop, b data intact, c clock, m steady time;                        *)
(* tick o loop, c clock; step; End.  cfg.step = 1: the system clock is stepped backwards during the run.           *)
EXTENDS Timers, TraceBase
vars == <<tid, pos, tvars>>
Strict == Cfg.step = 0
Init == TraceInit /\ TInit
Next == \/ IsEvent("set") /\ Set(E.f, E.o, E.a = 1, E.c + E.b, E.c + E.b + 1000000, E.m, E.b)
        \/ IsEvent("done") /\ SetDone(E.f, E.c + E.b)
        \/ IsEvent("fire") /\ E.b = 1 /\ Fire(E.f, E.o, E.c, E.m, Strict)
        \/ IsEvent("tick") /\ Tick(E.o, E.c, Strict)
        \/ IsEvent("step") /\ Step
        \/ IsEvent("End") /\ AllFired /\ UNCHANGED tvars
Spec == Init /\ [][Next]_vars
=============================================================================
