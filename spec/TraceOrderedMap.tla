--------------------------- MODULE TraceOrderedMap ---------------------------
(* ins k v new got c, del k got c, find k got c, find2 k got res c, cover k    *)
(* got c, fwd l, bwd l, iter l stop how rmask, shape h empty, End nodes.  got: *)
(* value of the returned entry, 0 for none; c: comparisons made.               *)
EXTENDS OrderedMap, TraceBase
vars == <<tid, pos, m>>
Init == TraceInit /\ MapInit
Next == \/ /\ IsEvent("ins") /\ Logarithmic(E.c)
           /\ E.new = (IF E.k \in Keys THEN 0 ELSE 1) /\ E.got = (IF E.k \in Keys THEN m[E.k] ELSE E.v)
           /\ Insert(E.k, E.v)
        \/ IsEvent("del") /\ Logarithmic(E.c) /\ E.got = At(E.k) /\ Delete(E.k)
        \/ IsEvent("find") /\ Logarithmic(E.c) /\ E.got = At(E.k) /\ UNCHANGED m
        \/ /\ IsEvent("find2") /\ Logarithmic(E.c) /\ UNCHANGED m
           /\ IF E.k \in Keys THEN E.res = 0 /\ E.got = m[E.k]
              ELSE IF Keys = {} THEN E.got = 0
              ELSE \/ E.res = -1 /\ E.got # 0 /\ E.got = Succ(E.k)
                   \/ E.res = 1 /\ E.got # 0 /\ E.got = Pred(E.k)
        \/ IsEvent("cover") /\ Logarithmic(E.c) /\ E.got = Cover(E.k) /\ UNCHANGED m
        \/ IsEvent("fwd") /\ E.l = Forward /\ UNCHANGED m
        \/ IsEvent("bwd") /\ E.l = Backward /\ UNCHANGED m
        \/ /\ IsEvent("iter") /\ LET v == Visits(E.stop) IN E.l = [i \in DOMAIN v |-> m[v[i]]]
           /\ Iterate(E.stop, E.how, E.rmask)
        \/ IsEvent("shape") /\ Logarithmic(E.h) /\ E.empty = (IF Keys = {} THEN 1 ELSE 0) /\ UNCHANGED m
        \/ IsEvent("End") /\ E.nodes \in {-1, Cardinality(Keys)} /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
=============================================================================
