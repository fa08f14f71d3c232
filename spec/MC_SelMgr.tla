------------------------------ MODULE MC_SelMgr ------------------------------
EXTENDS SelMgr
CONSTANTS Reqs, Works, MaxCnt, MaxPicks
VARIABLES hist, picks
vars == <<svars, hist, picks>>
Init == SInit /\ hist = <<>> /\ picks = 0
Other == /\ \/ \E r \in Reqs : Start(r)
            \/ \E r \in Reqs, o \in BOOLEAN : Grow(r, o) /\ n > 0
            \/ \E k \in Works, i \in Loops : Post(k, i)
            \/ \E k \in Works : n = 0 /\ Early(k)
            \/ \E k \in Works, i \in Loops : Ran(k, i)
            \/ \E i \in Loops, d \in {1, Gap} : cnt[i] + d <= MaxCnt /\ Register(i, d)
            \/ \E i \in Loops, d \in {1, Gap} : Remove(i, d)
         /\ (cnt' # cnt => hist' = <<>>) /\ (cnt' = cnt => hist' = hist) /\ UNCHANGED picks
Pick == /\ n > 0 /\ picks < MaxPicks /\ picks' = picks + 1
        /\ \E i \in Loops : Choose(i) /\ hist' = Append(hist, i)
PickW == /\ n > 0 /\ picks < MaxPicks /\ picks' = picks + 1
         /\ \E k \in Works : PostAny(k) /\ hist' = Append(hist, work'[k])
Next == Other \/ Pick \/ PickW
Spec == Init /\ [][Next]_vars
Size == n = 0 \/ (n \in {1, 2, 4, 8, 16, 32, 64} /\ n <= MaxLoops)
Kept == [][n > 0 => (n' >= n /\ \A i \in Loops : loop'[i] = loop[i])]_vars
(* some loop always fits, so a choice is always possible and always valid *)
AlwaysChoice == \A s \in Loops : \E k \in Loops : cnt[(s + k) % n] < cnt[(s + k + 1) % n] + Gap
Level == \A i, j \in Loops : cnt[i] < cnt[j] + Gap
LastN == SubSeq(hist, Len(hist) - n + 1, Len(hist))
(* while no loop is clearly busier, any n choices in a row cover all loops *)
Spread == (n > 0 /\ Level /\ Len(hist) >= n) => {LastN[k] : k \in 1 .. n} = Loops
(* a loop clearly busier than its successor is never chosen *)
NotBusier == [][(Len(hist') > Len(hist)) => LET i == hist'[Len(hist')] IN cnt[i] < cnt[(i + 1) % n] + Gap]_vars
WorkValid == \A k \in DOMAIN work : work[k] \in Loops
=============================================================================
