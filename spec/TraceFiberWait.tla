-------------------------- MODULE TraceFiberWait --------------------------
(* wait f, o object; wake f, o object, a value (logged just before it is posted); woke f, o, a value, b = 1  *)
(* if stack, registers and floating-point control state are as they were                                     *)
EXTENDS FiberWait, TraceBase
vars == <<tid, pos, wvars>>
Init == TraceInit /\ WInit
Next == \/ IsEvent("wait") /\ Wait(E.f, E.o)
        \/ IsEvent("wake") /\ Wake(E.f, E.o, E.a)
        \/ IsEvent("woke") /\ E.b = 1 /\ Woke(E.f, E.o, E.a)
        \/ IsEvent("End") /\ E.b = 1 /\ Quiet /\ UNCHANGED wvars
Spec == Init /\ [][Next]_vars
=============================================================================
