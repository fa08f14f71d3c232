--------------------------------- MODULE Ticks ---------------------------------
(* Ticks of a loop: every turn calls each registered tick once, in the order they *)
(* were registered; a positive answer bounds the time until the next turn.        *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Loops, Longest,   \* a loop never waits longer than this (ms)
          Grain            \* what reading clocks in whole ms costs
VARIABLES tk,    \* loop -> its ticks, in order
          nxt,   \* loop -> index of the next one to be called
          last,  \* loop -> when it was heard of last
          best,  \* loop -> bound on the wait after this turn
          busy   \* loop -> time spent in callbacks since
tkvars == <<tk, nxt, last, best, busy>>
TkInit == /\ tk = [s \in Loops |-> <<>>] /\ nxt = [s \in Loops |-> 1] /\ last = [s \in Loops |-> 0]
          /\ best = [s \in Loops |-> Longest] /\ busy = [s \in Loops |-> 0]
Bound(r, m) == IF r > 0 /\ r < m THEN r ELSE m
InTime(s, t) == t <= last[s] + best[s] + busy[s] + Grain
Register(s, k, t) ==
  /\ (\A x \in Loops : \A i \in 1 .. Len(tk[x]) : tk[x][i] # k)
  /\ tk' = [tk EXCEPT ![s] = Append(@, k)]
  /\ IF tk[s] = <<>> THEN /\ last' = [last EXCEPT ![s] = t] /\ nxt' = [nxt EXCEPT ![s] = 1]
                          /\ best' = [best EXCEPT ![s] = Longest] /\ busy' = [busy EXCEPT ![s] = 0]
     ELSE UNCHANGED <<last, nxt, best, busy>>
Call(s, k, r, t) ==
  /\ nxt[s] <= Len(tk[s]) /\ tk[s][nxt[s]] = k
  /\ (nxt[s] = 1 => InTime(s, t))
  /\ nxt' = [nxt EXCEPT ![s] = IF @ = Len(tk[s]) THEN 1 ELSE @ + 1]
  /\ best' = [best EXCEPT ![s] = Bound(r, IF nxt[s] = 1 THEN Longest ELSE @)]
  /\ last' = [last EXCEPT ![s] = t] /\ busy' = [busy EXCEPT ![s] = 0] /\ UNCHANGED tk
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
CloseTick(s, k, t) ==
  /\ InTime(s, t)
  /\ \E i \in 1 .. Len(tk[s]) :
       /\ tk[s][i] = k /\ tk' = [tk EXCEPT ![s] = Without(@, i)]
       /\ LET n == IF i < nxt[s] THEN nxt[s] - 1 ELSE nxt[s] IN nxt' = [nxt EXCEPT ![s] = IF n > Len(tk[s]) - 1 THEN 1 ELSE n]
  /\ UNCHANGED <<last, best, busy>>
Spend(s, ms) == busy' = [busy EXCEPT ![s] = @ + ms] /\ UNCHANGED <<tk, nxt, last, best>>
=============================================================================
