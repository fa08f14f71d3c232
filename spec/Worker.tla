------------------------------- MODULE Worker -------------------------------
(* Asynchronous worker.  q: queued jobs in order; taken: jobs a worker thread has taken and not finished;     *)
(* js: job -> [kind, st, over]: kind 0 ordinary, 1 high priority, 2 blocking; st "call" (being submitted),   *)
(* "in" (accepted), "rej", "run", "done"; over: the queue was over its limit when a blocking job was accepted *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxW, MaxQ
VARIABLES q, taken, js,
          unans   \* submissions under way
wvars == <<q, taken, js, unans>>
WInit == q = <<>> /\ taken = {} /\ js = <<>> /\ unans = {}
PutW(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
Over(mq) == mq > 0 /\ Len(q) > mq
Submit(j, kind) == j \notin DOMAIN js /\ js' = PutW(js, j, [kind |-> kind, st |-> "call", over |-> FALSE]) /\ unans' = unans \cup {j} /\ UNCHANGED <<q, taken>>
(* takes effect: ordinary jobs at the end, high-priority jobs in front *)
Accept(j, mq) == /\ j \in DOMAIN js /\ js[j].st = "call"
                 /\ js[j].kind # 2 => ~Over(mq)
                 /\ js' = [js EXCEPT ![j].st = "in", ![j].over = (js[j].kind = 2 /\ Over(mq))]
                 /\ q' = (IF js[j].kind = 1 THEN <<j>> \o q ELSE Append(q, j))
                 /\ UNCHANGED <<taken, unans>>
Reject(j, mq) == /\ j \in DOMAIN js /\ js[j].st = "call" /\ js[j].kind # 2 /\ Over(mq)
                 /\ js' = [js EXCEPT ![j].st = "rej"] /\ UNCHANGED <<q, taken, unans>>
(* no thread could be had for it *)
RejectNoThread(j) == /\ j \in DOMAIN js /\ js[j].st = "call" /\ js[j].kind # 2 /\ js' = [js EXCEPT ![j].st = "rej"] /\ unans' = unans \ {j} /\ UNCHANGED <<q, taken>>
Take(mw) == q # <<>> /\ Cardinality(taken) < mw /\ taken' = taken \cup {Head(q)} /\ q' = Tail(q) /\ UNCHANGED <<js, unans>>
Queued(j) == \E i \in 1..Len(q) : q[i] = j
Answered(j, ok) == /\ j \in DOMAIN js /\ unans' = unans \ {j}
                   /\ ok => js[j].st \notin {"call", "rej"} /\ (js[j].over => ~Queued(j))
                   /\ ~ok => js[j].st = "rej"
                   /\ UNCHANGED <<q, taken, js>>
Run(j) == j \in taken /\ js[j].st = "in" /\ js' = [js EXCEPT ![j].st = "run"] /\ UNCHANGED <<q, taken, unans>>
Finish(j) == j \in taken /\ js[j].st = "run" /\ js' = [js EXCEPT ![j].st = "done"] /\ taken' = taken \ {j} /\ UNCHANGED <<q, unans>>
(* nothing moves although threads could be had: jobs wait only because as many run as may, and submitters only because *)
(* the queue was over its limit                                                                                         *)
Settled(mw) == /\ q # <<>> => Cardinality(taken) = mw
               /\ \A j \in unans : js[j].over /\ Queued(j)
AllDone == q = <<>> /\ taken = {} /\ unans = {} /\ \A j \in DOMAIN js : js[j].st \in {"done", "rej"}
=============================================================================
