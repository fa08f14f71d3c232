------------------------------ MODULE TracePool ------------------------------
EXTENDS Pool, TraceBase
vars == <<tid, pos, pvars>>
Init == TraceInit /\ PInit
Next == \/ IsEvent("create") /\ Create
        \/ IsEvent("alloc") /\ E.valid = 1 /\ E.off % E.al = 0 /\ Alloc(E.id, E.off, E.len)
        \/ IsEvent("nomem") /\ UNCHANGED pvars
        \/ IsEvent("cleanup") /\ E.ok = 1 /\ Register(E.id, E.off, E.len)
        \/ IsEvent("cleanup") /\ E.ok = 0 /\ UNCHANGED pvars
        \/ IsEvent("once") /\ E.ok = 1 /\ E.old = once /\ RegisterOnce(E.id, E.off, E.len)
        \/ IsEvent("once") /\ E.ok = 0 /\ once = 0 /\ UNCHANGED pvars
        \/ IsEvent("pfree") /\ E.freed = 1 /\ E.valid = 0 /\ Free(E.id)
        \/ IsEvent("pfree") /\ E.freed = 0 /\ UNCHANGED pvars
        \/ IsEvent("acreate") /\ ArrayCreate(E.id, E.hoff, E.hlen)
        \/ IsEvent("arr") /\ E.ok = 1 /\ ArrayAt(E.id, E.off, E.len, E.used)
        \/ IsEvent("adestroy") /\ ArrayDestroy(E.id)
        \/ IsEvent("chk") /\ E.bad = <<>> /\ UNCHANGED pvars
        \/ IsEvent("reset") /\ StartEmpty(2)
        \/ IsEvent("destroy") /\ StartEmpty(3)
        \/ IsEvent("cu") /\ Cleanup(E.id)
        \/ IsEvent("emptied") /\ open = 2 /\ Emptied
        \/ IsEvent("gone") /\ open = 3 /\ E.live = 0 /\ Emptied
        \/ IsEvent("End") /\ open = 0 /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
=============================================================================
