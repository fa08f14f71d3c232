------------------------------- MODULE FMutex -------------------------------
(* Abstract fiber mutex: a counting lock with a limit, bounded try-lock and    *)
(* changeable limit.  Fibers request, are granted (in any order: fairness      *)
(* between waiters is not part of the contract) and release.                   *)
EXTENDS Naturals, FiniteSets
VARIABLES limit,    \* current limit
          holders,  \* fibers that hold a slot
          waiters   \* fibers whose request was accepted and not granted yet
mvars == <<limit, holders, waiters>>

Count == Cardinality(holders) + Cardinality(waiters)

MInit(l) == limit = l /\ holders = {} /\ waiters = {}

(* a request is accepted; it is granted at once iff a slot is free *)
Request(f) ==
  /\ f \notin holders \cup waiters
  /\ IF Cardinality(holders) < limit
       THEN holders' = holders \cup {f} /\ waiters' = waiters
       ELSE waiters' = waiters \cup {f} /\ holders' = holders
  /\ UNCHANGED limit
(* a bounded request is refused exactly when holders and waiters reach the bound *)
Refuse(f, max) == Count >= max /\ UNCHANGED mvars
Accept(f, max) == Count < max /\ Request(f)

Grant(f) ==
  /\ f \in waiters /\ Cardinality(holders) < limit
  /\ waiters' = waiters \ {f} /\ holders' = holders \cup {f}
  /\ UNCHANGED limit
Release(f) == f \in holders /\ holders' = holders \ {f} /\ UNCHANGED <<limit, waiters>>
SetLimit(l) == limit' = l /\ UNCHANGED <<holders, waiters>>

(* no waiter is left behind while a slot is free: nothing grantable *)
Settled == waiters = {} \/ Cardinality(holders) >= limit
=============================================================================
