------------------------------- MODULE MC_Idle -------------------------------
(* How the loop keeps its limits: a list of connections in the order in which    *)
(* they were last active, whose head is looked at on every pass.  Every ending    *)
(* must be one that Idle allows, and nothing may become overdue.                  *)
EXTENDS Idle, Sequences
CONSTANTS MaxT
VARIABLES now, rw, active, left
vars == <<ivars, now, rw, active, left>>
MLim(e) == 2
MRounds(e) == IF e = 0 THEN 1 ELSE 0
MAsks(e) == e = 1
Init == IInit /\ now = 0 /\ rw = <<>> /\ active = [e \in Ends |-> 0] /\ left = [e \in Ends |-> 0]
InList(e) == \E i \in DOMAIN rw : rw[i] = e
Without(e) == SelectSeq(rw, LAMBDA x : x # e)
Head1 == rw[1]
Due == rw # <<>> /\ now - active[Head1] >= Lim(Head1)
(* an operation starts; the connection goes to the end of the list unless it is in it *)
Start(e, o) ==
  /\ ~dead[e] /\ now < MaxT /\ IStart(e, o, now) /\ UNCHANGED now
  /\ IF InList(e) THEN UNCHANGED <<rw, active, left>>
     ELSE rw' = Append(rw, e) /\ active' = [active EXCEPT ![e] = now] /\ left' = [left EXCEPT ![e] = Rounds(e)]
(* an event: the operation completes, the connection is put back if the other one is pending *)
Complete(e, o) ==
  /\ since[e][o] # -1 /\ IDone(e, o, now) /\ UNCHANGED now
  /\ IF \E p \in Ops \ {o} : since[e][p] # -1 /\ ~dead[e]
     THEN rw' = Append(Without(e), e) /\ active' = [active EXCEPT ![e] = now] /\ left' = [left EXCEPT ![e] = Rounds(e)]
     ELSE rw' = Without(e) /\ UNCHANGED <<active, left>>
(* the loop looks at the head of the list *)
Scan ==
  /\ Due /\ UNCHANGED now
  /\ LET e == Head1 IN
     IF left[e] > 0
     THEN left' = [left EXCEPT ![e] = @ - 1] /\ rw' = Append(Tail(rw), e) /\ active' = [active EXCEPT ![e] = now] /\ UNCHANGED ivars
     ELSE IF Asks(e) /\ since[e]["r"] # -1
     THEN rw' = Append(Tail(rw), e) /\ active' = [active EXCEPT ![e] = now] /\ UNCHANGED left /\ ITold(e, now, TRUE)
     ELSE rw' = Tail(rw) /\ UNCHANGED <<active, left>> /\ IExpire(e, now)
Tick == ~Due /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<ivars, rw, active, left>>
        /\ \A e \in Ends : dead[e] => ~Pending(e)
Next == Scan \/ Tick \/ \E e \in Ends, o \in Ops : Start(e, o) \/ Complete(e, o)
Spec == Init /\ [][Next]_vars
Sorted == \A i, j \in DOMAIN rw : i < j => active[rw[i]] <= active[rw[j]]
OnceInList == \A i, j \in DOMAIN rw : rw[i] = rw[j] => i = j
Watched == \A e \in Ends : Pending(e) /\ ~dead[e] => InList(e)
NotLate == Timely(now)
(* the head can always be dealt with in a way that Idle allows: never too early *)
NeverStuck == Due => ENABLED Scan
=============================================================================
