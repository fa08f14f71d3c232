---------------------------- MODULE TraceWorker ----------------------------
(* sub f job, o kind; res f, a 0 accepted / 1 rejected, b 1 a thread could not be created meanwhile;         *)
(* run f; fin f; quiet a the queue is said to be empty, b 1 no thread creation failed so far; End a memory not given back, b 1 the worker object still exists after its last reference.    *)
EXTENDS Worker, TraceBase
vars == <<tid, pos, wvars>>
Init == TraceInit /\ WInit
Quiet == Silent
Next == \/ IsEvent("sub") /\ Submit(E.f, E.o)
        \/ Quiet /\ \E j \in DOMAIN js : Accept(j, Cfg.maxq)
        \/ Quiet /\ Take(Cfg.maxw)
        \/ IsEvent("res") /\ E.a = 0 /\ Answered(E.f, TRUE)
        \/ IsEvent("res") /\ E.a = 1 /\ Answered(E.f, FALSE)
        \/ Quiet /\ \E j \in DOMAIN js : Reject(j, Cfg.maxq)
        \/ IsEvent("res") /\ E.a = 1 /\ E.b = 1 /\ RejectNoThread(E.f)
        \/ IsEvent("run") /\ Run(E.f)
        \/ IsEvent("fin") /\ Finish(E.f)
        \/ IsEvent("quiet") /\ (E.b = 1 => Settled(Cfg.maxw)) /\ E.a = (IF q = <<>> THEN 1 ELSE 0) /\ UNCHANGED wvars
        \/ IsEvent("End") /\ AllDone /\ E.a = 0 /\ E.b = 0 /\ UNCHANGED wvars
Spec == Init /\ [][Next]_vars
=============================================================================
