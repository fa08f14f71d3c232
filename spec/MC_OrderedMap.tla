---------------------------- MODULE MC_OrderedMap ----------------------------
EXTENDS OrderedMap
CONSTANTS K, V
Init == MapInit
Next == \/ \E k \in K, v \in V : Insert(k, v)
        \/ \E k \in K : Delete(k)
        \/ \E s \in 0..Cardinality(K), h \in 0..1, r \in 0..3 : Iterate(s, h, r)
Spec == Init /\ [][Next]_m
IsDict == /\ Keys \subseteq K /\ \A k \in Keys : m[k] \in V
          /\ Len(Forward) = Cardinality(Keys) /\ Backward = Reverse(Forward)
          /\ \A i \in 1..Len(Sorted) - 1 : Sorted[i] < Sorted[i + 1]
          /\ \A k \in K : /\ (k \in Keys => Cover(k) = At(k)) /\ (Keys # {} => Cover(k) # 0)
                          /\ (k \notin Keys /\ Below(k) # {}) => Cover(k) = Pred(k)
(* an insertion never changes an existing entry, a deletion touches only its key *)
Frame == [][\A k \in K : (k \in Keys /\ k \in DOMAIN m') => m'[k] = m[k]]_m
FullIteration == \A r \in 0..3 : Visits(0) = Sorted
=============================================================================
