----------------------------- MODULE TraceAtoms -----------------------------
(* Cfg.v: the first limbs of the cells.  call t op v a b / back t r of an operation *)
(* on a cell; make t s d, take t s, give t u s, drop t s (before it is dropped),  *)
(* look t s d len of strings; tell t s n: the count is what is held.             *)
EXTENDS Atoms, TraceBase
vars == <<tid, pos, avars>>
S == 0..Cfg.s
Th == 0..Cfg.t
Init == /\ TraceInit /\ val = Cfg.v /\ ap = [t \in Threads |-> <<>>]
        /\ hold = [t \in Threads |-> [s \in S |-> 0]] /\ born = [s \in S |-> ""] /\ text = [s \in S |-> ""]
Next == \/ IsEvent("call") /\ Call(E.th, E.op, E.v, E.a, E.b)
        \/ IsEvent("back") /\ Back(E.th, E.r)
        \/ (Silent /\ \E t \in Th : Act(t))
        \/ IsEvent("make") /\ Make(E.th, E.s, E.d)
        \/ IsEvent("take") /\ Take(E.th, E.s)
        \/ IsEvent("give") /\ Give(E.th, E.u, E.s)
        \/ IsEvent("drop") /\ Drop(E.th, E.s)
        \/ IsEvent("look") /\ Look(E.th, E.s, E.d)
        \/ IsEvent("count") /\ E.n = Refs(E.s, Threads) /\ UNCHANGED avars
        \/ IsEvent("End") /\ (\A s \in S : ~Held(s)) /\ E.live = 0 /\ UNCHANGED avars
Spec == Init /\ [][Next]_vars
=============================================================================
