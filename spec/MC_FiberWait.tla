--------------------------- MODULE MC_FiberWait ---------------------------
(* The switching discipline of one selector: 0 is the loop's own context, a woken or created fiber runs at   *)
(* once and remembers whom it came from, a waiting or ending one goes back there.  Other threads post to the *)
(* selector's notice queue, which only the loop's context reads.  It refines FiberWait, the chain of         *)
(* contexts to return to is never cyclic, and no wakeup reaches a fiber that does not wait for it.           *)
EXTENDS FiberWait, Sequences
CONSTANTS Fib, MaxOps
VARIABLES st,    \* "new" "on" (in the chain) "wait" "over"
          from, cur, box, n, told  \* told: fibers that were woken by themselves before waiting
ivars == <<wvars, st, from, cur, box, n, told>>
MInit == WInit /\ st = [f \in Fib |-> "new"] /\ from = [f \in Fib |-> 0] /\ cur = 0 /\ box = <<>> /\ n = 0 /\ told = {}
Tick == n < MaxOps /\ n' = n + 1
DoCreate(f) == st[f] = "new" /\ st' = [st EXCEPT ![f] = "on"] /\ from' = [from EXCEPT ![f] = cur] /\ cur' = f /\ UNCHANGED <<wvars, box, n, told>>
Switch(f) == st' = [st EXCEPT ![f] = "on"] /\ from' = [from EXCEPT ![f] = cur] /\ cur' = f
(* the current fiber starts to wait; a self-made wakeup is consumed without switching *)
DoWait == /\ cur # 0 /\ Tick /\ Wait(cur, 1)
          /\ IF cur \in told THEN UNCHANGED <<st, from, cur, box, told>>
             ELSE st' = [st EXCEPT ![cur] = "wait"] /\ cur' = from[cur] /\ UNCHANGED <<from, box, told>>
SelfWake == cur # 0 /\ cur \notin told /\ Wake(cur, 1, n) /\ told' = told \cup {cur} /\ UNCHANGED <<st, from, cur, box, n>>
SelfWoke == cur \in told /\ cur \in DOMAIN waits /\ Woke(cur, 1, mail[cur][2]) /\ told' = told \ {cur} /\ UNCHANGED <<st, from, cur, box, n>>
WakeOther(f) == st[f] = "wait" /\ Wake(f, 1, n) /\ Switch(f) /\ UNCHANGED <<box, n, told>>
(* the woken fiber runs: it returns from its wait before it does anything else *)
WokenReturns == cur # 0 /\ cur \notin told /\ cur \in DOMAIN waits /\ cur \in DOMAIN mail /\ Woke(cur, 1, mail[cur][2]) /\ UNCHANGED <<st, from, cur, box, n, told>>
Remote(f) == st[f] \in {"wait", "on"} /\ f \notin told /\ Wake(f, 1, n) /\ box' = Append(box, f) /\ UNCHANGED <<st, from, cur, n, told>>
Deliver == cur = 0 /\ box # <<>> /\ st[Head(box)] = "wait" /\ Switch(Head(box)) /\ box' = Tail(box) /\ UNCHANGED <<wvars, n, told>>
DoEnd == cur # 0 /\ cur \notin DOMAIN mail /\ cur \notin DOMAIN waits /\ st' = [st EXCEPT ![cur] = "over"] /\ cur' = from[cur] /\ UNCHANGED <<wvars, from, box, n, told>>
Returning == cur # 0 /\ cur \in DOMAIN waits
Next == \/ WokenReturns \/ SelfWoke \/ \E f \in Fib : Remote(f) /\ st[f] = "wait"
        \/ ~Returning /\ (DoWait \/ SelfWake \/ DoEnd \/ Deliver \/ \E f \in Fib : DoCreate(f) \/ WakeOther(f) \/ (Remote(f) /\ st[f] = "wait"))
Spec == MInit /\ [][Next]_ivars
RECURSIVE Chain(_, _)
Chain(f, k) == IF f = 0 THEN <<>> ELSE IF k = 0 THEN <<0-1>> ELSE <<f>> \o Chain(from[f], k - 1)
NoCycle == LET c == Chain(cur, Cardinality(Fib)) IN /\ \A i \in 1..Len(c) : c[i] # 0-1
                                                    /\ \A f \in Fib : (st[f] = "on") <=> (\E i \in 1..Len(c) : c[i] = f)
ToWaiters == \A i \in 1..Len(box) : st[box[i]] = "wait"
OnePost == \A i, j \in 1..Len(box) : i # j => box[i] # box[j]
Refine == [][\E f \in Fib : Wait(f, 1) \/ (\E v \in 0..MaxOps : Wake(f, 1, v) \/ Woke(f, 1, v))]_wvars
=============================================================================
