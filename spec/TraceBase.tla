----------------------------- MODULE TraceBase -----------------------------
(* Shared by the trace-validation modules: a batch of recorded traces, one   *)
(* initial state per trace; pos is the next event to explain.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tid, pos
Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
E == Ev[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
IsEvent(e) == pos <= Len(Ev) /\ E.e = e /\ pos' = pos + 1 /\ UNCHANGED tid
Silent == pos <= Len(Ev) /\ UNCHANGED <<tid, pos>>
(* state constraint, always true: reports explained traces (and, when asked, how far each got) *)
Report == /\ pos > Len(Ev) => PrintT(<<"ACC", tid>>)
          /\ (IOEnv.VERBOSE = "1") => PrintT(<<"AT", pos>>)
=============================================================================
