------------------------------- MODULE MC_Pool -------------------------------
EXTENDS Pool
CONSTANTS Addr, Ids
VARIABLE ran
vars == <<pvars, ran>>
Init == PInit /\ ran = <<>>
Next == \/ Create /\ UNCHANGED ran
        \/ \E i \in Ids, a \in Addr, n \in 0..2 :
             /\ i \notin DOMAIN live /\ (0 - i) \notin DOMAIN live /\ i \notin DOMAIN arr /\ \A k \in DOMAIN ran : ran[k] # i
             /\ \/ Alloc(i, a, n) \/ Register(i, a, 1) \/ RegisterOnce(i, a, 1) \/ (n > 0 /\ ArrayCreate(i, a, n))
             /\ UNCHANGED ran
        \/ \E i \in Ids : i \notin DOMAIN arr /\ Free(i) /\ UNCHANGED ran
        \/ \E i \in Ids, a \in Addr, n \in 1..2 : ((i \in DOMAIN arr /\ ArrayAt(i, a, n, arr[i][3] + 1)) \/ ArrayDestroy(i)) /\ UNCHANGED ran
        \/ (\E h \in {2, 3} : StartEmpty(h)) /\ UNCHANGED ran
        \/ \E i \in Ids : Cleanup(i) /\ ran' = Append(ran, i)
        \/ Emptied /\ UNCHANGED ran
Spec == Init /\ [][Next]_vars
Disjoint == /\ \A i, j \in DOMAIN live : i # j => Apart(live[i][1], live[i][2], live[j][1], live[j][2])
            /\ \A i \in DOMAIN live, j \in DOMAIN arr : Apart(live[i][1], live[i][2], arr[j][1], arr[j][2])
            /\ \A i, j \in DOMAIN arr : i # j => Apart(arr[i][1], arr[i][2], arr[j][1], arr[j][2])
CleanedOnce == \A i, j \in DOMAIN ran : i # j => ran[i] # ran[j]
NothingWithoutPool == open = 0 => (live = <<>> /\ arr = <<>> /\ cl = <<>>)
=============================================================================
