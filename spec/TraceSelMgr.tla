----------------------------- MODULE TraceSelMgr -----------------------------
(* early k; init req n; loop i id (identity of loop i); grow req own ok n;       *)
(* pick i (quiescent) / vpick i (concurrent); post k i / postany k / ran k i;    *)
(* reg/unreg i k c (count reported after); limits c rw; limit i c rw (loop i's); *)
(* tinit i (thread start hook ran on loop i); live i (loop i is served);         *)
(* End: nothing posted is left.                                                 *)
EXTENDS SelMgr, TraceBase
VARIABLES hooks
vars == <<tid, pos, svars, hooks>>
Init == TraceInit /\ SInit /\ hooks = {}
Same == UNCHANGED <<svars, hooks>>
H == UNCHANGED hooks
Flag(b) == IF b THEN 1 ELSE 0
Next == \/ IsEvent("early") /\ Early(E.k) /\ H
        \/ IsEvent("init") /\ Start(E.req) /\ E.n = n' /\ H
        \/ IsEvent("loop") /\ E.i \in Loops /\ loop[E.i] = E.id /\ E.sid = E.i /\ Same
        \/ IsEvent("grow") /\ E.ok = Flag(CanGrow(E.req, E.own = 1)) /\ Grow(E.req, E.own = 1) /\ E.n = n' /\ H
        \/ IsEvent("pick") /\ Choose(E.i) /\ H
        \/ IsEvent("vpick") /\ ChooseAny(E.i) /\ H
        \/ IsEvent("post") /\ Post(E.k, E.i) /\ H
        \/ IsEvent("postany") /\ PostAny(E.k) /\ H
        \/ IsEvent("ran") /\ Ran(E.k, E.i) /\ H
        \/ IsEvent("reg") /\ Register(E.i, E.k) /\ E.c = cnt'[E.i] /\ H
        \/ IsEvent("unreg") /\ Remove(E.i, E.k) /\ E.c = cnt'[E.i] /\ H
        \/ IsEvent("limits") /\ Limits(E.c, E.rw) /\ H
        \/ IsEvent("limit") /\ E.i \in Loops /\ <<E.c, E.rw>> = tmo /\ Same
        \/ IsEvent("tinit") /\ E.i \in Loops \ hooks /\ hooks' = hooks \union {E.i} /\ UNCHANGED svars
        \/ IsEvent("End") /\ work = <<>> /\ early = {} /\ (E.up = 1 => hooks = Loops) /\ Same
Spec == Init /\ [][Next]_vars
=============================================================================
