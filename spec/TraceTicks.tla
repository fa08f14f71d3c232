------------------------------ MODULE TraceTicks ------------------------------
(* reg s k t, tk s k r t (tick k is called and answers r), clo s k t, busy s b    *)
EXTENDS Ticks, TraceBase

vars == <<tid, pos, tkvars>>
Init == TraceInit /\ TkInit
Next == \/ IsEvent("reg") /\ Register(E.s, E.k, E.t)
        \/ IsEvent("tk") /\ Call(E.s, E.k, E.r, E.t)
        \/ IsEvent("clo") /\ CloseTick(E.s, E.k, E.t)
        \/ IsEvent("busy") /\ Spend(E.s, E.b)
        \/ IsEvent("End") /\ E.live = 0 /\ (\A s \in Loops : tk[s] = <<>>) /\ UNCHANGED tkvars
Spec == Init /\ [][Next]_vars
=============================================================================
