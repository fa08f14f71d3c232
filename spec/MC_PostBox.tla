---------------------------- MODULE MC_PostBox ----------------------------
(* Implementation-level model of the notice queue: posters push under a lock *)
(* and count the notice in an event counter; the loop sleeps while the       *)
(* counter is zero, reads it and pops that many.  Refines PostBox.           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ids, MaxBatch
VARIABLES todo, queue, counter, loop, quota, ranlog, pushed
vars == <<todo, queue, counter, loop, quota, ranlog, pushed>>
Init == todo = Ids /\ queue = <<>> /\ counter = 0 /\ loop = "sleep" /\ quota = 0 /\ ranlog = <<>> /\ pushed = {}
Push(i) == i \in todo /\ todo' = todo \ {i} /\ queue' = <<i>> \o queue /\ pushed' = pushed \cup {i} /\ UNCHANGED <<counter, loop, quota, ranlog>>
Count(i) == i \in pushed /\ pushed' = pushed \ {i} /\ counter' = counter + 1 /\ UNCHANGED <<todo, queue, loop, quota, ranlog>>
Wake == loop = "sleep" /\ counter > 0 /\ loop' = "drain" /\ quota' = counter /\ counter' = 0 /\ UNCHANGED <<todo, queue, ranlog, pushed>>
Pop == /\ loop = "drain" /\ quota > 0 /\ queue # <<>>
       /\ ranlog' = Append(ranlog, Head(queue)) /\ queue' = Tail(queue) /\ quota' = quota - 1
       /\ UNCHANGED <<todo, counter, loop, pushed>>
Sleep == loop = "drain" /\ quota = 0 /\ loop' = "sleep" /\ UNCHANGED <<todo, queue, counter, quota, ranlog, pushed>>
Next == (\E i \in Ids : Push(i) \/ Count(i)) \/ Wake \/ Pop \/ Sleep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RanSet == {ranlog[k] : k \in 1..Len(ranlog)}
Once == Len(ranlog) = Cardinality(RanSet)
(* the number still queued always equals what counter, quota and uncounted pushes promise *)
Promise == Len(queue) = counter + quota + Cardinality(pushed)
NeverEmptyHanded == (loop = "drain" /\ quota > 0) => queue # <<>>
PB == INSTANCE PostBox WITH posted <- [i \in Ids \ todo |-> i], ran <- RanSet
Refines == PB!PInit /\ [][\/ \E i \in Ids : PB!Post(i, i) \/ PB!Run(i, i)]_(PB!pvars)
AllRun == <>(RanSet = Ids)
=============================================================================
