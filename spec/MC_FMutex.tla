----------------------------- MODULE MC_FMutex -----------------------------
(* Exhaustive check of the abstract mutex: K fibers, all programs.           *)
EXTENDS FMutex, Naturals
CONSTANTS Fibers, MaxLimit
Init == \E l \in 1..MaxLimit : MInit(l)
Next ==
  \/ \E f \in Fibers : Request(f) \/ Release(f) \/ Grant(f)
  \/ \E f \in Fibers, m \in 1..Cardinality(Fibers) : f \notin holders \cup waiters /\ Accept(f, m)
  \/ \E l \in 1..MaxLimit : l # limit /\ SetLimit(l)
Spec == Init /\ [][Next]_mvars /\ \A f \in Fibers : WF_mvars(Grant(f)) /\ WF_mvars(Release(f))
(* grants happen only below the limit; the limit may be lowered under holders *)
TypeOK == limit \in 1..MaxLimit /\ holders \subseteq Fibers /\ waiters \subseteq Fibers
Disjoint == holders \cap waiters = {}
GrantBounded == [][Cardinality(holders') > Cardinality(holders) => Cardinality(holders') <= limit']_mvars
NoHolderLost == [][\A f \in holders \ holders' : f \notin waiters']_mvars
(* a settled state with waiters has at least one holder: nobody waits for nothing *)
Progress == Settled /\ waiters # {} => holders # {}
=============================================================================
