----------------------------- MODULE FiberLife -----------------------------
(* Life of fibers.  fs: fiber -> record                                      *)
(*   st   "creating", "failed", "run", "ended"                               *)
(*   w    where/what it must start with: <<selector or -1, argument, value>> *)
(*   val  what its start function returned                                   *)
(*   ok   0 creation not answered yet, 1 succeeded, 2 failed                 *)
(* js: joins that are under way: join -> fiber                               *)
EXTENDS Integers, FiniteSets
VARIABLES fs, js
fvars == <<fs, js>>
FInit == fs = <<>> /\ js = <<>>
PutF(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
DelF(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
Create(f, w) == f \notin DOMAIN fs /\ fs' = PutF(fs, f, [st |-> "creating", w |-> w, val |-> 0, ok |-> 0]) /\ UNCHANGED js
(* the creation is answered, possibly after the fiber has run *)
Created(f, rc) == /\ f \in DOMAIN fs /\ fs[f].ok = 0
                  /\ rc # 0 => fs[f].st = "creating"
                  /\ fs' = [fs EXCEPT ![f].ok = IF rc = 0 THEN 1 ELSE 2, ![f].st = IF rc = 0 THEN @ ELSE "failed"]
                  /\ UNCHANGED js
Start(f, w) == /\ f \in DOMAIN fs /\ fs[f].st = "creating"
               /\ \A i \in 1..3 : (i = 1 /\ fs[f].w[1] = 0-1) \/ w[i] = fs[f].w[i]
               /\ fs' = [fs EXCEPT ![f].st = "run"] /\ UNCHANGED js
Finish(f, v) == f \in DOMAIN fs /\ fs[f].st = "run" /\ fs' = [fs EXCEPT ![f].st = "ended", ![f].val = v] /\ UNCHANGED js
JoinBegin(j, f) == j \notin DOMAIN js /\ f \in DOMAIN fs /\ fs[f].st # "failed" /\ js' = PutF(js, j, f) /\ UNCHANGED fs
JoinDone(j, v) == j \in DOMAIN js /\ fs[js[j]].st = "ended" /\ fs[js[j]].val = v /\ js' = DelF(js, j) /\ UNCHANGED fs
(* a polling join that found the fiber not reclaimed yet *)
JoinNotYet(j) == j \in DOMAIN js /\ js' = DelF(js, j) /\ UNCHANGED fs
AllDone == (\A f \in DOMAIN fs : (fs[f].st = "failed" /\ fs[f].ok = 2) \/ (fs[f].st = "ended" /\ fs[f].ok = 1)) /\ DOMAIN js = {}
=============================================================================
