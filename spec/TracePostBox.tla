--------------------------- MODULE TracePostBox ---------------------------
(* post: f id, o selector, a data/argument tag, b value; run: the same, o = selector of the running thread *)
EXTENDS PostBox, TraceBase
vars == <<tid, pos, pvars>>
Init == TraceInit /\ PInit
Next == \/ IsEvent("post") /\ Post(E.f, <<E.o, E.a, E.b>>)
        \/ IsEvent("run") /\ Run(E.f, <<E.o, E.a, E.b>>)
        \/ IsEvent("End") /\ AllRan /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
=============================================================================
