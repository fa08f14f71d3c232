------------------------------ MODULE MC_Links ------------------------------
(* The links themselves: next and previous of every item and head; following     *)
(* them gives the sequences of Links.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Heads, Items, FHeads
VARIABLES nx, pv, fn, there, fthere
vars == <<nx, pv, fn, there, fthere>>
Nodes == Heads \cup Items
RECURSIVE Walk(_, _, _, _)
Walk(f, h, x, n) == IF x = h \/ n = 0 THEN <<>> ELSE <<x>> \o Walk(f, h, f[x], n - 1)
Seqs == [h \in Heads |-> Walk(nx, h, nx[h], Cardinality(Items) + 1)]
FSeqs == [h \in FHeads |-> Walk(fn, h, fn[h], Cardinality(Items) + 1)]
L == INSTANCE Links WITH ring <- Seqs, fwd <- FSeqs
Init == /\ nx = [n \in Nodes |-> n] /\ pv = [n \in Nodes |-> n] /\ fn = [n \in FHeads \cup Items |-> n]
        /\ there = {} /\ fthere = {}
(* before the node p, which may be a head *)
Insert(p, x) == /\ x \notin there /\ there' = there \cup {x}
                /\ pv' = [pv EXCEPT ![x] = pv[p], ![p] = x] /\ nx' = [nx EXCEPT ![pv[p]] = x, ![x] = p] /\ UNCHANGED <<fn, fthere>>
Remove(x) == /\ x \in there /\ there' = there \ {x}
             (* the links of an item that is in no list do not matter *)
             /\ nx' = [nx EXCEPT ![pv[x]] = nx[x], ![x] = x] /\ pv' = [pv EXCEPT ![nx[x]] = pv[x], ![x] = x] /\ UNCHANGED <<fn, fthere>>
Push(h, x) == /\ x \notin fthere /\ fthere' = fthere \cup {x}
              /\ fn' = [fn EXCEPT ![x] = fn[h], ![h] = x] /\ UNCHANGED <<nx, pv, there>>
RECURSIVE Find(_, _, _)
Find(h, p, x) == IF fn[p] = h THEN 0 ELSE IF fn[p] = x THEN p ELSE Find(h, fn[p], x)
Pull(h, x) == LET p == Find(h, h, x)
              IN /\ UNCHANGED <<nx, pv, there>>
                 /\ IF p = 0 THEN UNCHANGED <<fn, fthere>>
                    ELSE fn' = [fn EXCEPT ![p] = fn[x], ![x] = x] /\ fthere' = fthere \ {x}
Next == \/ \E x \in Items : Remove(x) \/ (\E p \in Heads \cup there : Insert(p, x))
        \/ \E h \in FHeads, x \in Items : Push(h, x) \/ Pull(h, x)
Spec == Init /\ [][Next]_vars
Agree == \A n \in Heads \cup there : pv[nx[n]] = n /\ nx[pv[n]] = n
Apart == \A h, g \in Heads : h # g => {Seqs[h][i] : i \in DOMAIN Seqs[h]} \cap {Seqs[g][i] : i \in DOMAIN Seqs[g]} = {}
All == /\ {x \in Items : L!Somewhere(Seqs, x)} = there /\ {x \in Items : L!Somewhere(FSeqs, x)} = fthere
       /\ \A h \in Heads : Walk(pv, h, pv[h], 9) = L!Back(Seqs[h])
LNext == \/ \E x \in Items : L!Remove(x) \/ (\E h \in Heads : L!Append_(h, x)) \/ (\E y \in Items : L!Before(y, x))
         \/ \E h \in FHeads, x \in Items : L!Push(h, x) \/ (\E w \in BOOLEAN : L!Pull(h, x, w))
Refines == [][LNext]_<<Seqs, FSeqs>>
=============================================================================
