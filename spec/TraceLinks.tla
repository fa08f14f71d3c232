----------------------------- MODULE TraceLinks -----------------------------
(* Cfg.h rings and Cfg.f forward lists.  app h x, before y x, rem x, clear h,    *)
(* push h x, pull h x was; show h there back empty first last, fshow h there empty *)
EXTENDS Links, TraceBase
vars == <<tid, pos, lvars>>
Init == TraceInit /\ ring = [h \in 1..Cfg.h |-> <<>>] /\ fwd = [h \in 1..Cfg.f |-> <<>>]
Next == \/ IsEvent("app") /\ Append_(E.h, E.x)
        \/ IsEvent("before") /\ Before(E.y, E.x)
        \/ IsEvent("rem") /\ Remove(E.x)
        \/ IsEvent("clear") /\ Clear(E.h)
        \/ IsEvent("push") /\ Push(E.h, E.x)
        \/ IsEvent("pull") /\ Pull(E.h, E.x, E.was = 1)
        \/ IsEvent("show") /\ Shows(E.h, E.there, E.back, E.empty = 1, E.first, E.last)
        \/ IsEvent("fshow") /\ ShowsF(E.h, E.there, E.empty = 1)
        \/ IsEvent("End") /\ E.live = 0 /\ UNCHANGED lvars
Spec == Init /\ [][Next]_vars
=============================================================================
