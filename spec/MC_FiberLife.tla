--------------------------- MODULE MC_FiberLife ---------------------------
(* A finer model of the implementation's protocol: a creation posts a start notice to the selector, the end  *)
(* of a fiber queues its exit on the selector, processing the exit signals the close condition and drops the *)
(* loop's reference, every join drops one reference and the last one reclaims the fiber.  It refines         *)
(* FiberLife, and reclaiming happens once, after everybody has let go.                                       *)
EXTENDS FiberLife, Sequences, TLC
CONSTANTS Fib, Joins, MaxRef
VARIABLES q,      \* notices of the selectors: fiber -> "start" / "exit" / "none"
          ref,    \* references
          sig,    \* close condition signalled
          wt,     \* joins suspended on the condition: join -> fiber
          gone    \* how often reclaimed
ivars == <<fvars, q, ref, sig, wt, gone>>
MInit == /\ FInit /\ q = [f \in Fib |-> "none"] /\ ref = [f \in Fib |-> 0]
         /\ sig = {} /\ wt = <<>> /\ gone = [f \in Fib |-> 0]
Drop(f, r) == IF r[f] = 1 THEN /\ ref' = [r EXCEPT ![f] = 0] /\ gone' = [gone EXCEPT ![f] = @ + 1]
                          ELSE /\ ref' = [r EXCEPT ![f] = @ - 1] /\ UNCHANGED gone
DoCreate(f) == \E n \in 0..MaxRef :
  /\ Create(f, <<0-1, f, f>>)
  /\ \/ ref' = [ref EXCEPT ![f] = 1 + n] /\ q' = [q EXCEPT ![f] = "start"]
     \/ UNCHANGED <<ref, q>>   \* no memory
  /\ UNCHANGED <<sig, wt, gone>>
DoCreated(f) == /\ Created(f, IF ref[f] > 0 \/ gone[f] > 0 THEN 0 ELSE 1) /\ UNCHANGED <<q, ref, sig, wt, gone>>
DoStart(f) == q[f] = "start" /\ Start(f, <<1, f, f>>) /\ q' = [q EXCEPT ![f] = "none"] /\ UNCHANGED <<ref, sig, wt, gone>>
DoEnd(f) == Finish(f, f) /\ q' = [q EXCEPT ![f] = "exit"] /\ UNCHANGED <<ref, sig, wt, gone>>
DoExit(f) == /\ q[f] = "exit" /\ q' = [q EXCEPT ![f] = "none"] /\ sig' = sig \cup {f}
             /\ wt' = [j \in {x \in DOMAIN wt : wt[x] # f} |-> wt[j]]
             /\ Drop(f, ref) /\ UNCHANGED fvars
Holds(f) == ref[f] - Cardinality({j \in DOMAIN js : js[j] = f}) - (IF f \in sig THEN 0 ELSE 1)  \* holders that have not joined yet
DoJoin(j, f) == /\ f \in DOMAIN fs /\ fs[f].ok = 1 /\ Holds(f) > 0 /\ JoinBegin(j, f)
                /\ wt' = IF f \in sig THEN wt ELSE PutF(wt, j, f)
                /\ UNCHANGED <<q, ref, sig, gone>>
DoJoined(j) == /\ j \in DOMAIN js /\ j \notin DOMAIN wt /\ JoinDone(j, fs[js[j]].val)
               /\ Drop(js[j], ref) /\ UNCHANGED <<q, sig, wt>>
DoPoll(j) == /\ j \in DOMAIN js /\ j \in DOMAIN wt /\ JoinNotYet(j) /\ wt' = DelF(wt, j) /\ UNCHANGED <<q, ref, sig, gone>>
Next == \/ \E f \in Fib : DoCreate(f) \/ DoCreated(f) \/ DoStart(f) \/ DoEnd(f) \/ DoExit(f) \/ \E j \in Joins : DoJoin(j, f)
        \/ \E j \in Joins : DoJoined(j) \/ DoPoll(j)
Fair == /\ \A f \in Fib : WF_ivars(DoStart(f)) /\ WF_ivars(DoEnd(f)) /\ WF_ivars(DoExit(f)) /\ WF_ivars(DoCreated(f))
        /\ \A j \in Joins : WF_ivars(DoJoined(j))
Spec == MInit /\ [][Next]_ivars /\ Fair
ReclaimedOnce == \A f \in Fib : gone[f] <= 1
ReclaimedLate == \A f \in Fib : gone[f] = 1 => f \in DOMAIN fs /\ fs[f].st = "ended" /\ (\A j \in DOMAIN js : js[j] # f)
JoinSeesEnd == \A j \in DOMAIN js : (j \notin DOMAIN wt) => fs[js[j]].st = "ended"
FailedNeverRuns == \A f \in DOMAIN fs : fs[f].st = "failed" => q[f] = "none" /\ gone[f] = 0
Refine == [][\/ \E f \in Fib : (\E w \in {<<0-1, f, f>>} : Create(f, w)) \/ Created(f, 0) \/ Created(f, 1) \/ Start(f, <<1, f, f>>) \/ Finish(f, f)
                               \/ \E j \in Joins : JoinBegin(j, f) \/ JoinDone(j, f) \/ JoinNotYet(j)]_fvars
JoinsEnd == \A j \in Joins : (j \in DOMAIN js) ~> (j \notin DOMAIN js)
=============================================================================
