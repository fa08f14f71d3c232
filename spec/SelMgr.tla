------------------------------- MODULE SelMgr -------------------------------
(* The set of event loops: how many there are, which one is chosen for new    *)
(* work, how many items each has registered, and work posted to them.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Gap,     \* how much busier than its successor a loop must be to be passed over
          MaxLoops
VARIABLES n,       \* number of loops, 0 before initialisation
          loop,    \* index -> identity of the loop
          cnt,     \* index -> registered items
          nxt,     \* where the next choice starts, -1 when that is not known
          work,    \* posted work -> index of the loop it must run on
          tmo,     \* configured <<connect, read/write>> limits in ms
          early    \* work registered before initialisation
svars == <<n, loop, cnt, nxt, work, tmo, early>>
SInit == /\ n = 0 /\ loop = <<>> /\ cnt = <<>> /\ nxt = -1 /\ work = <<>> /\ tmo = <<0, 0>> /\ early = {}
Pow2(k) == IF k < 2 THEN 1 ELSE CHOOSE p \in {2, 4, 8, 16, 32, 64} :
              p <= MaxLoops /\ p <= k /\ (2 * p > k \/ p = MaxLoops)
Loops == 0 .. n - 1
(* the first loop from s on that is not clearly busier than the one after it *)
ChoiceFrom(s) == LET Fit(k) == cnt[(s + k) % n] < cnt[(s + k + 1) % n] + Gap
                     k0 == CHOOSE k \in Loops : Fit(k) /\ \A j \in Loops : j < k => ~Fit(j)
                 IN (s + k0) % n
Starts == IF nxt = -1 THEN Loops ELSE {nxt}
Put(f, i, v) == (i :> v) @@ f
Drop(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]

Early(k) == n = 0 /\ early' = early \union {k} /\ UNCHANGED <<n, loop, cnt, nxt, work, tmo>>
Start(req) == /\ n = 0 /\ n' = Pow2(req)
              /\ loop' = [i \in 0 .. n' - 1 |-> i] /\ cnt' = [i \in 0 .. n' - 1 |-> 0]
              /\ tmo' = <<60000, 60000>> /\ nxt' = -1 /\ UNCHANGED <<work, early>>
(* only a single loop can be grown, from its own thread; everything it has stays *)
CanGrow(req, own) == n = 1 /\ own /\ Pow2(req) > 1
Grow(req, own) == IF CanGrow(req, own)
                  THEN /\ n' = Pow2(req) /\ loop' = [i \in 0 .. n' - 1 |-> i]
                       /\ cnt' = [i \in 0 .. n' - 1 |-> IF i = 0 THEN cnt[0] ELSE 0]
                       /\ nxt' = -1 /\ UNCHANGED <<work, tmo, early>>
                  ELSE UNCHANGED svars
Choose(i) == /\ n > 0 /\ \E s \in Starts : i = ChoiceFrom(s)
             /\ nxt' = (i + 1) % n /\ UNCHANGED <<n, loop, cnt, work, tmo, early>>
(* a choice made while others choose or counts move: some loop *)
ChooseAny(i) == i \in Loops /\ nxt' = -1 /\ UNCHANGED <<n, loop, cnt, work, tmo, early>>
Post(k, i) == /\ i \in Loops /\ k \notin DOMAIN work /\ work' = Put(work, k, i)
              /\ UNCHANGED <<n, loop, cnt, nxt, tmo, early>>
PostAny(k) == /\ k \notin DOMAIN work
              /\ \E s \in Starts : /\ work' = Put(work, k, ChoiceFrom(s))
                                   /\ nxt' = (ChoiceFrom(s) + 1) % n
              /\ UNCHANGED <<n, loop, cnt, tmo, early>>
Ran(k, i) == \/ /\ k \in DOMAIN work /\ work[k] = i /\ work' = Drop(work, k)
                /\ UNCHANGED <<n, loop, cnt, nxt, tmo, early>>
             \/ /\ k \in early /\ i \in Loops /\ early' = early \ {k}
                /\ UNCHANGED <<n, loop, cnt, nxt, work, tmo>>
Register(i, k) == /\ i \in Loops /\ cnt' = [cnt EXCEPT ![i] = @ + k]
                  /\ UNCHANGED <<n, loop, nxt, work, tmo, early>>
Remove(i, k) == /\ i \in Loops /\ cnt[i] >= k /\ cnt' = [cnt EXCEPT ![i] = @ - k]
                /\ UNCHANGED <<n, loop, nxt, work, tmo, early>>
Ms(s) == IF s <= 0 THEN 60000 ELSE s * 1000
Limits(c, rw) == /\ n > 0 /\ tmo' = <<Ms(IF c <= 0 THEN rw ELSE c), Ms(rw)>>
                 /\ UNCHANGED <<n, loop, cnt, nxt, work, early>>
=============================================================================
