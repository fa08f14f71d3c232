----------------------------- MODULE MC_Timers -----------------------------
(* The loops' protocol: a shared clock that one loop refreshes from a system clock that may be stepped back, *)
(* per-loop sorted timers, a pass that takes out everything due and then runs it (setting more timers),      *)
(* timers of other threads travelling as notices, each loop moving its timers back when it sees the clock    *)
(* go back.  It refines Timers (steady time = now).                                                          *)
EXTENDS Timers, Sequences, TLC
CONSTANTS Loops, Ids, Delays, MaxNow, MaxStep
VARIABLES now,    \* steady time
          off,    \* system clock - steady time
          clock,  \* the shared clock of the loops
          seen,   \* loop -> clock it last looked at
          tree,   \* loop -> set of <<due, id>>
          q,      \* loop -> notices <<delay, id>> of other threads
          batch,  \* loop -> taken out, to run
          ph,     \* loop -> "idle", "run"
          stepped, last, ran  \* last: steady time of each loop's last pass
ivars == <<tvars, now, off, clock, seen, tree, q, batch, ph, stepped, last, ran>>
MInit == /\ TInit /\ now = 0 /\ off = MaxStep /\ clock = MaxStep
         /\ seen = [l \in Loops |-> MaxStep] /\ tree = [l \in Loops |-> {}] /\ q = [l \in Loops |-> <<>>]
         /\ batch = [l \in Loops |-> <<>>] /\ ph = [l \in Loops |-> "idle"] /\ stepped = FALSE /\ last = [l \in Loops |-> 0] /\ ran = 0
Moved(l) == IF clock < seen[l] THEN {<<e[1] + clock - seen[l], e[2]>> : e \in tree[l]} ELSE tree[l]
NextId == 1 + Cardinality(used)
SetOwn(l, d) == /\ NextId \in Ids /\ ph[l] = "run"
                /\ Set(NextId, l, TRUE, clock + d, clock + d, now, d)
                /\ tree' = [tree EXCEPT ![l] = Moved(l) \cup {<<clock + d, NextId>>}] /\ seen' = [seen EXCEPT ![l] = clock]
                /\ UNCHANGED <<now, off, clock, q, batch, ph, stepped, last, ran>>
SetOther(l, d) == /\ NextId \in Ids
                  /\ Set(NextId, l, FALSE, clock + d, 1000, now, d)
                  /\ q' = [q EXCEPT ![l] = Append(@, <<d, NextId>>)]
                  /\ UNCHANGED <<now, off, clock, seen, tree, batch, ph, stepped, last, ran>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE e \in S : \A x \in S : e[1] <= x[1] IN <<m[2]>> \o Sorted(S \ {m})
(* one pass: notices, then everything due is taken out; loop 1 refreshes the clock first *)
Pass1(l) == /\ ph[l] = "idle" /\ ph' = [ph EXCEPT ![l] = "run"]
            /\ clock' = (IF l = 1 THEN now + off ELSE clock)
            /\ LET mv == IF clock' < seen[l] THEN {<<e[1] + clock' - seen[l], e[2]>> : e \in tree[l]} ELSE tree[l]
                   t == mv \cup {<<clock' + q[l][i][1], q[l][i][2]>> : i \in 1..Len(q[l])}
                   due == {e \in t : e[1] <= clock'}
               IN tree' = [tree EXCEPT ![l] = t \ due] /\ batch' = [batch EXCEPT ![l] = Sorted(due)]
            /\ q' = [q EXCEPT ![l] = <<>>] /\ seen' = [seen EXCEPT ![l] = clock'] /\ last' = [last EXCEPT ![l] = now]
            /\ UNCHANGED <<tvars, now, off, stepped, ran>>
DoFire(l) == /\ ph[l] = "run" /\ batch[l] # <<>>
             /\ Fire(Head(batch[l]), l, clock, now, ~stepped)
             /\ batch' = [batch EXCEPT ![l] = Tail(@)] /\ ran' = ran + 1
             /\ UNCHANGED <<now, off, clock, seen, tree, q, ph, stepped, last>>
PassEnd(l) == /\ ph[l] = "run" /\ batch[l] = <<>> /\ ph' = [ph EXCEPT ![l] = "idle"]
              /\ Tick(l, clock, ~stepped)
              /\ UNCHANGED <<now, off, clock, seen, tree, q, batch, stepped, last, ran>>
(* time passes only when the loops are asleep, and they sleep at most one unit *)
Advance == /\ now < MaxNow /\ \A l \in Loops : ph[l] = "idle" /\ last[l] = now
           /\ now' = now + 1 /\ UNCHANGED <<tvars, off, clock, seen, tree, q, batch, ph, stepped, last, ran>>
StepBack == /\ off > 0 /\ \E n \in 1..MaxStep : n <= off /\ off' = off - n
            /\ stepped' = TRUE /\ Step
            /\ UNCHANGED <<now, clock, seen, tree, q, batch, ph, last, ran>>
Next == \/ \E l \in Loops : (\E d \in Delays : SetOwn(l, d) \/ SetOther(l, d)) \/ Pass1(l) \/ DoFire(l) \/ PassEnd(l)
        \/ Advance \/ StepBack
Spec == MInit /\ [][Next]_ivars
(* the refinement: the guards of Fire and Tick never stop the implementation *)
FireAllowed == \A l \in Loops : (ph[l] = "run" /\ batch[l] # <<>>) =>
   LET t == Head(batch[l]) IN /\ t \in DOMAIN tm /\ tm[t].sel = l
      /\ now >= tm[t].from + tm[t].ms - Slack /\ now <= tm[t].from + tm[t].ms + 2 * Slack + tm[t].st * Pass
      /\ (~stepped => clock >= tm[t].lo)
      /\ ((~stepped /\ tm[t].local) => \A u \in DOMAIN tm : (tm[u].local /\ tm[u].sel = l /\ u # t) => tm[u].hi >= tm[t].lo)
TickAllowed == \A l \in Loops : (ph[l] = "run" /\ batch[l] = <<>> /\ ~stepped /\ l \in DOMAIN tick) =>
   \A u \in DOMAIN tm : (tm[u].local /\ tm[u].sel = l /\ tm[u].old) => tm[u].hi > tick[l]
InBatch(l) == {batch[l][i] : i \in 1..Len(batch[l])}
Kept == \A l \in Loops : \A t \in DOMAIN tm : tm[t].sel = l =>
   Cardinality({e \in tree[l] : e[2] = t}) + Cardinality({i \in 1..Len(q[l]) : q[l][i][2] = t}) + Cardinality({i \in 1..Len(batch[l]) : batch[l][i] = t}) = 1
=============================================================================
