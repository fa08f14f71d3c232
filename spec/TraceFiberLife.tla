-------------------------- MODULE TraceFiberLife --------------------------
(* create f, o selector (-1: not chosen by the caller), a argument, b value; created f, a result;            *)
(* start f, o selector, a argument, b value; end f, b value; jinv f fiber, o join; jret f fiber, o join,     *)
(* a 0 joined / 1 not yet, b value; live a = live fibers; End a = memory blocks that were not given back.    *)
EXTENDS FiberLife, TraceBase
vars == <<tid, pos, fvars>>
Init == TraceInit /\ FInit
Next == \/ IsEvent("create") /\ Create(E.f, <<E.o, E.a, E.b>>)
        \/ IsEvent("created") /\ Created(E.f, E.a)
        \/ IsEvent("start") /\ Start(E.f, <<E.o, E.a, E.b>>)
        \/ IsEvent("end") /\ Finish(E.f, E.b)
        \/ IsEvent("jinv") /\ JoinBegin(E.o, E.f)
        \/ IsEvent("jret") /\ E.a = 0 /\ JoinDone(E.o, E.b)
        \/ IsEvent("jret") /\ E.a = 1 /\ JoinNotYet(E.o)
        \/ IsEvent("live") /\ AllDone /\ E.a = 0 /\ UNCHANGED fvars
        \/ IsEvent("End") /\ AllDone /\ E.a = 0 /\ UNCHANGED fvars
Spec == Init /\ [][Next]_vars
=============================================================================
