----------------------------- MODULE ThreadPool -----------------------------
(* Thread pool.  js: job -> [st, by, th, val, own, pool]: st "start", "run", "done", "failed", "ret";         *)
(*   by the thread that handed it over, th the thread that runs it, own the selector of a fiber's call        *)
(*   (-1: not a call), pool FALSE: a thread of its own outside the pool's accounts                            *)
(* idle: thread of the pool that waits for work -> since when (ms); doomed: idle threads told to leave by a   *)
(*   close, closing: closes under way; lo, hi: how many idle threads there may be when the pool is quiet next; *)
(*   settled: idle threads that were idle when the pool was quiet last                                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Keep,   \* an idle thread is kept for this long (ms)
          Slack   \* resolution of the clock (ms)
VARIABLES js, idle, doomed, closing, lo, hi, settled
xvars == <<doomed, closing, lo, hi, settled>>
pvars == <<js, idle, xvars>>
PInit == js = <<>> /\ idle = <<>> /\ doomed = {} /\ closing = 0 /\ lo = 0 /\ hi = 1000 /\ settled = {}
PutP(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
DropP(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Busy == {js[j].th : j \in {x \in DOMAIN js : js[x].st = "run"}}
Start(j, by, own, pool) == /\ j \notin DOMAIN js
                           /\ js' = PutP(js, j, [st |-> "start", by |-> by, th |-> 0-1, val |-> 0, own |-> own, pool |-> pool, ok |-> 0, old |-> FALSE])
                           /\ UNCHANGED <<idle, xvars>>
(* handed over when the pool is quiet: as long as there are more idle threads than jobs on their way, no thread is created *)
StartCalm(j, by, own, pool) == /\ j \notin DOMAIN js
                               /\ LET way == {i \in DOMAIN js : js[i].st = "start" /\ js[i].pool} IN
                                  js' = PutP(js, j, [st |-> "start", by |-> by, th |-> 0-1, val |-> 0, own |-> own, pool |-> pool, ok |-> 0,
                                                     old |-> pool /\ Cardinality(way) < Cardinality(settled)])
                               /\ UNCHANGED <<idle, xvars>>
(* the start was answered; a job that could not be started never runs *)
Started(j) == j \in DOMAIN js /\ js[j].ok = 0 /\ js[j].st # "failed" /\ js' = [js EXCEPT ![j].ok = 1] /\ UNCHANGED <<idle, xvars>>
Refused(j) == j \in DOMAIN js /\ js[j].st = "start" /\ ~js[j].old /\ js' = [js EXCEPT ![j].st = "failed"] /\ UNCHANGED <<idle, xvars>>
Run(j, th) == /\ j \in DOMAIN js /\ js[j].st = "start" /\ th # js[j].by /\ th \notin Busy
              /\ js[j].old => th \in DOMAIN idle
              /\ js' = [js EXCEPT ![j].st = "run", ![j].th = th]
              /\ idle' = DropP(idle, th) /\ doomed' = doomed \ {th} /\ settled' = settled \ {th} /\ UNCHANGED <<closing, lo, hi>>
Value(j, v) == j \in DOMAIN js /\ js[j].st = "run" /\ js' = [js EXCEPT ![j].val = v] /\ UNCHANGED <<idle, xvars>>
Finish(j, th, now) == /\ j \in DOMAIN js /\ js[j].st = "run" /\ js[j].th = th /\ js' = [js EXCEPT ![j].st = "done"]
                      /\ idle' = (IF js[j].pool THEN PutP(idle, th, now) ELSE idle) /\ UNCHANGED xvars
(* a fiber's call returns after its function has, with its value, on the fiber's own selector *)
Return(j, sel) == /\ j \in DOMAIN js /\ js[j].own = sel /\ js[j].own >= 0 /\ js[j].st = "done" /\ js' = [js EXCEPT ![j].st = "ret"]
                  /\ UNCHANGED <<idle, xvars>>
(* a thread of the pool leaves only when it does nothing, and has done nothing for a while or all are sent away *)
Leave(th, now) == /\ th \notin Busy
                  /\ th \in DOMAIN idle => th \in doomed \/ closing > 0 \/ now - idle[th] > Keep
                  /\ idle' = DropP(idle, th) /\ doomed' = doomed \ {th} /\ settled' = settled \ {th} /\ UNCHANGED <<js, closing, lo, hi>>
CloseBegin == closing' = closing + 1 /\ UNCHANGED <<js, idle, doomed, lo, hi, settled>>
(* quiet: nobody else uses the pool, so that nobody idle is left over *)
CloseEnd(quiet) == /\ closing' = closing - 1 /\ doomed' = DOMAIN idle
                   /\ lo' = (IF quiet THEN 0 ELSE lo) /\ hi' = (IF quiet THEN 0 ELSE hi) /\ UNCHANGED <<js, idle, settled>>
(* quiet: of the idle threads those that have been idle for long are sent away, but never so many that fewer than min are left *)
(* (unless the library itself does the same at that moment) *)
Flush(min, now, alone) ==
                   LET n == Cardinality(DOMAIN idle)
                       must == Cardinality({t \in DOMAIN idle : now - idle[t] > Keep + Slack})
                       may == Cardinality({t \in DOMAIN idle : now - idle[t] > Keep})
                       room == Max2(0, n - min) IN
                   /\ hi' = n - Min2(must, room) /\ lo' = (IF alone THEN n - Min2(may, room) ELSE 0) /\ UNCHANGED <<js, idle, doomed, closing, settled>>
(* nothing happens: the accounts are what the pool has, and nobody has been idle for longer than it takes (0: no limit) *)
Quiet(n, now, limit) == /\ n = Cardinality(DOMAIN idle) /\ lo <= n /\ n <= hi /\ lo' = 0 /\ hi' = 1000
                        /\ limit > 0 => \A t \in DOMAIN idle : now - idle[t] <= limit
                        /\ settled' = DOMAIN idle /\ UNCHANGED <<js, idle, doomed, closing>>
Running == {j \in DOMAIN js : js[j].st \in {"run", "start"}}
AllDone == \A j \in DOMAIN js : (js[j].own >= 0 => js[j].st \in {"ret", "failed"}) /\ (js[j].own < 0 => js[j].st = "failed" \/ (js[j].st = "done" /\ js[j].ok = 1))
=============================================================================
