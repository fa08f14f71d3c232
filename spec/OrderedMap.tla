----------------------------- MODULE OrderedMap -----------------------------
(* The ordered map: a finite function from keys (ranks in the comparison      *)
(* order) to entries.  Every operation is determined by that function; the    *)
(* number of comparisons it may make is logarithmic in the number of keys.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
VARIABLE m
MapInit == m = <<>>
Keys == DOMAIN m
Sorted == SetToSortSeq(Keys, LAMBDA a, b : a < b)
Forward == LET s == Sorted IN [i \in DOMAIN s |-> m[s[i]]]
Backward == LET s == Sorted IN [i \in DOMAIN s |-> m[s[Len(s) + 1 - i]]]
At(k) == IF k \in Keys THEN m[k] ELSE 0
Below(k) == {x \in Keys : x < k}
Above(k) == {x \in Keys : x > k}
Pred(k) == IF Below(k) = {} THEN 0 ELSE m[Max(Below(k))]
Succ(k) == IF Above(k) = {} THEN 0 ELSE m[Min(Above(k))]
(* the entry that covers k: its own, else the nearest below, else (wrapping round) the last *)
Cover(k) == IF Keys = {} THEN 0 ELSE IF k \in Keys THEN m[k] ELSE IF Below(k) # {} THEN Pred(k) ELSE m[Max(Keys)]

Insert(k, v) == m' = IF k \in Keys THEN m ELSE (k :> v) @@ m
Delete(k) == m' = [x \in Keys \ {k} |-> m[x]]

(* at most 2*log2(n+1) levels, the bound of a balanced (red-black) tree *)
Logarithmic(c) == 2^(IF c > 30 THEN 30 ELSE c) <= (Cardinality(Keys) + 1) * (Cardinality(Keys) + 1)

(* an iteration that stops at its stop-th entry (0: never) and removes on the way: what it visits and leaves *)
Visits(stop) == LET f == Sorted IN IF stop > 0 /\ stop < Len(f) THEN SubSeq(f, 1, stop) ELSE f
Removed(stop, how, rmask) ==
  LET v == Visits(stop) IN
  {v[i] : i \in {j \in DOMAIN v : IF j = stop THEN how = 1 ELSE rmask > 0 /\ (j - 1) % (rmask + 1) = 0}}
Iterate(stop, how, rmask) == m' = [x \in Keys \ Removed(stop, how, rmask) |-> m[x]]
=============================================================================
