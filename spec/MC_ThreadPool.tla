--------------------------- MODULE MC_ThreadPool ---------------------------
(* The implementation's protocol: idle threads wait for a signal; handing over a job takes the newest idle   *)
(* thread off the list and signals it, or creates one (which may fail); retiring takes the oldest off the     *)
(* list and signals it to leave; a finished thread puts itself on the list and only then waits for the signal.*)
(* It refines ThreadPool and keeps the counts exact.                                                         *)
EXTENDS ThreadPool, Sequences, TLC
CONSTANTS Jobs, Threads
VARIABLES pc,     \* thread -> "none", "run", "listed" (on the list, may still be on its way to the wait), "gone"
          cmd,    \* thread -> <<"start", job>>, <<"end", 0>>, <<"null", 0>>
          sig,    \* thread -> a signal is pending
          free,   \* the list
          nwork, nfree, job
ivars == <<pvars, pc, cmd, sig, free, nwork, nfree, job>>
MInit == /\ PInit /\ pc = [t \in Threads |-> "none"] /\ cmd = [t \in Threads |-> <<"null", 0>>] /\ sig = [t \in Threads |-> FALSE]
         /\ free = <<>> /\ nwork = 0 /\ nfree = 0 /\ job = [t \in Threads |-> 0]
DoStart(j) == /\ Start(j, 0, 0-1, TRUE)
              /\ IF free # <<>>
                 THEN LET t == free[Len(free)] IN
                      /\ free' = SubSeq(free, 1, Len(free) - 1) /\ nfree' = nfree - 1 /\ nwork' = nwork + 1
                      /\ cmd' = [cmd EXCEPT ![t] = <<"start", j>>] /\ sig' = [sig EXCEPT ![t] = TRUE] /\ UNCHANGED <<pc, job>>
                 ELSE \E t \in Threads : pc[t] = "none" /\ pc' = [pc EXCEPT ![t] = "new"] /\ job' = [job EXCEPT ![t] = j]
                      /\ nwork' = nwork + 1 /\ UNCHANGED <<cmd, sig, free, nfree>>
DoRun(t) == /\ pc[t] = "new" /\ Run(job[t], t) /\ pc' = [pc EXCEPT ![t] = "run"] /\ UNCHANGED <<cmd, sig, free, nwork, nfree, job>>
DoFin(t) == /\ pc[t] = "run" /\ Finish(job[t], t, 0) /\ pc' = [pc EXCEPT ![t] = "over"] /\ UNCHANGED <<cmd, sig, free, nwork, nfree, job>>
DoList(t) == /\ pc[t] = "over" /\ pc' = [pc EXCEPT ![t] = "listed"] /\ cmd' = [cmd EXCEPT ![t] = <<"null", 0>>]
             /\ free' = Append(free, t) /\ nwork' = nwork - 1 /\ nfree' = nfree + 1 /\ UNCHANGED <<pvars, sig, job>>
DoWake(t) == /\ pc[t] = "listed" /\ sig[t] /\ sig' = [sig EXCEPT ![t] = FALSE]
             /\ IF cmd[t][1] = "start" THEN pc' = [pc EXCEPT ![t] = "new"] /\ job' = [job EXCEPT ![t] = cmd[t][2]] ELSE pc' = [pc EXCEPT ![t] = "gone"] /\ UNCHANGED job
             /\ (IF cmd[t][1] = "start" THEN UNCHANGED pvars ELSE Leave(t, 1))
             /\ UNCHANGED <<cmd, free, nwork, nfree>>
DoRetire == /\ free # <<>> /\ LET t == Head(free) IN cmd' = [cmd EXCEPT ![t] = <<"end", 0>>] /\ sig' = [sig EXCEPT ![t] = TRUE]
            /\ free' = Tail(free) /\ nfree' = nfree - 1 /\ UNCHANGED <<pvars, pc, nwork, job>>
Next == (\E j \in Jobs : j = 1 + Cardinality(DOMAIN js) /\ DoStart(j)) \/ (\E t \in Threads : DoRun(t) \/ DoFin(t) \/ DoList(t) \/ DoWake(t)) \/ DoRetire
Spec == MInit /\ [][Next]_ivars /\ \A t \in Threads : WF_ivars(DoRun(t)) /\ WF_ivars(DoFin(t)) /\ WF_ivars(DoList(t)) /\ WF_ivars(DoWake(t))
IdleExact == \A t \in Threads : (t \in DOMAIN idle) = (pc[t] \in {"over", "listed"} \/ (pc[t] = "new" /\ t \in DOMAIN idle))
Counts == nfree = Len(free) /\ nwork = Cardinality({t \in Threads : pc[t] \in {"new", "run", "over"}}) + Cardinality({t \in Threads : pc[t] = "listed" /\ sig[t] /\ cmd[t][1] = "start"})
NeverInterrupted == \A t \in Threads : (pc[t] \in {"run", "new"} => ~sig[t]) /\ (pc[t] = "listed" /\ sig[t] => cmd[t][1] # "null")
RunAllowed == \A t \in Threads : pc[t] = "new" => js[job[t]].st = "start"
EachDone == \A j \in Jobs : (j \in DOMAIN js) ~> (j \in DOMAIN js /\ js[j].st = "done")
=============================================================================
