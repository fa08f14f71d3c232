----------------------------- MODULE MC_Worker -----------------------------
(* The implementation's protocol: a submission queues the job and, below the limit, starts one more thread,  *)
(* a thread takes the head until the queue is empty and then leaves; starting a thread may fail; the object   *)
(* is freed with its last reference.  It refines Worker.                                                     *)
EXTENDS Worker, TLC
CONSTANTS Jobs, Creators
VARIABLES thr,   \* threads: number running free of a job (about to look at the queue)
          busy,  \* jobs being run
          refs, freed, users, wait, inl
ivars == <<wvars, thr, busy, refs, freed, users, wait, inl>>
MInit == WInit /\ thr = 0 /\ busy = {} /\ refs = Creators /\ freed = 0 /\ users = Creators /\ wait = {} /\ inl = {}
Workers == thr + Cardinality(busy)
DropRef(r) == refs' = r - 1 /\ freed' = (IF r = 1 THEN freed + 1 ELSE freed)
DoSubmit(j, k) == users > 0 /\ j = 1 + Cardinality(DOMAIN js) /\ Submit(j, k) /\ UNCHANGED <<thr, busy, refs, freed, users, wait, inl>>
DoAccept(j) == /\ Accept(j, MaxQ)
               /\ \/ Workers >= MaxW /\ UNCHANGED <<thr, refs, inl>>
                  \/ Workers < MaxW /\ thr' = thr + 1 /\ refs' = refs + 1 /\ UNCHANGED inl
                  \/ Workers < MaxW /\ Workers > 0 /\ UNCHANGED <<thr, refs, inl>>   \* no thread, others will run it
                  \/ Workers = 0 /\ js[j].kind = 2 /\ thr' = 1 /\ refs' = refs + 1 /\ inl' = inl \cup {j}  \* the caller works
               /\ wait' = (IF js'[j].over THEN wait \cup {j} ELSE wait)
               /\ UNCHANGED <<busy, freed, users>>
DoReject(j) == (Reject(j, MaxQ) \/ (Workers = 0 /\ ~Over(MaxQ) /\ RejectNoThread(j))) /\ UNCHANGED <<thr, busy, refs, freed, users, wait, inl>>
DoTake == /\ thr > 0 /\ q # <<>> /\ Take(MaxW) /\ thr' = thr - 1 /\ busy' = busy \cup {Head(q)} /\ wait' = wait \ {Head(q)}
          /\ UNCHANGED <<refs, freed, users, inl>>
DoLeave == thr > 0 /\ q = <<>> /\ thr' = thr - 1 /\ DropRef(refs) /\ UNCHANGED <<wvars, busy, users, wait, inl>>
DoRun(j) == j \in busy /\ Run(j) /\ UNCHANGED <<thr, busy, refs, freed, users, wait, inl>>
DoFin(j) == j \in busy /\ Finish(j) /\ busy' = busy \ {j} /\ thr' = thr + 1 /\ UNCHANGED <<refs, freed, users, wait, inl>>
DoRelease == users > 0 /\ (\A j \in DOMAIN js : js[j].st # "call") /\ users' = users - 1 /\ DropRef(refs) /\ UNCHANGED <<wvars, thr, busy, wait, inl>>
Next == \/ \E j \in Jobs : (\E k \in 0..2 : DoSubmit(j, k)) \/ DoAccept(j) \/ DoReject(j) \/ DoRun(j) \/ DoFin(j)
        \/ DoTake \/ DoLeave \/ DoRelease
Spec == MInit /\ [][Next]_ivars /\ WF_ivars(DoTake) /\ WF_ivars(DoLeave) /\ \A j \in Jobs : WF_ivars(DoRun(j)) /\ WF_ivars(DoFin(j))
Limit == Workers <= MaxW /\ Cardinality(taken) <= MaxW
NoIdle == q # <<>> => Workers > 0
FreedLate == freed = (IF refs = 0 THEN 1 ELSE 0) /\ (freed = 1 => Workers = 0 /\ q = <<>>)
WaitQ == \A j \in wait : Queued(j)
EachRuns == \A j \in Jobs : (j \in DOMAIN js /\ js[j].st = "in") ~> (j \in DOMAIN js /\ js[j].st = "done")
=============================================================================
