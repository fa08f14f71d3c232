------------------------------ MODULE MC_Connect ------------------------------
(* How a loop keeps its attempts: a list in the order in which they began, whose *)
(* head is looked at on every pass, and readiness reported by the kernel.  Every *)
(* completion must be one that Connect allows, and nothing may hang.             *)
EXTENDS Connect, Sequences
CONSTANTS MaxT, MaxR
VARIABLES now, list, active, left,
          sock,     \* attempt -> what the socket is: "none", "pending", "up", "err"
          ready     \* attempts whose readiness the loop has been told of
vars == <<att, now, list, active, left, sock, ready>>
MLim(i) == 2
Init == /\ AInit /\ now = 0 /\ list = <<>> /\ active = [i \in Attempts |-> 0] /\ left = [i \in Attempts |-> 0]
        /\ sock = [i \in Attempts |-> "none"] /\ ready = {}
Without(i) == SelectSeq(list, LAMBDA x : x # i)
Due == list # <<>> /\ now - active[list[1]] >= Lim(list[1])
Outcome(i) == IF att[i].ans = "there" THEN "up" ELSE "err"
Try(i, ans, held, r) ==
  /\ now < MaxT /\ ATry(i, ans, held, r, now) /\ UNCHANGED <<now, ready>>
  /\ IF ans = "never" THEN UNCHANGED <<list, active, left, sock>>
     ELSE /\ list' = Append(list, i) /\ active' = [active EXCEPT ![i] = now] /\ left' = [left EXCEPT ![i] = r]
          /\ sock' = [sock EXCEPT ![i] = IF ~held /\ ans # "silent" THEN (IF ans = "there" THEN "up" ELSE "err") ELSE "pending"]
Release(i) == /\ sock[i] = "pending" /\ att[i].ans # "silent" /\ ARelease(i, now)
              /\ sock' = [sock EXCEPT ![i] = Outcome(i)] /\ UNCHANGED <<now, list, active, left, ready>>
ShutSock(i) == sock' = [sock EXCEPT ![i] = IF @ = "pending" THEN "err" ELSE @]
Abort(i) == att[i].st = "trying" /\ att[i].ans # "never" /\ ~att[i].abort /\ AAbort(i, now) /\ ShutSock(i) /\ UNCHANGED <<now, list, active, left, ready>>
Event(i) == /\ att[i].st = "trying" /\ sock[i] \in {"up", "err"} /\ i \notin ready
            /\ ready' = ready \cup {i} /\ UNCHANGED <<att, now, list, active, left, sock>>
(* the loop delivers readiness *)
Deliver(i) ==
  /\ i \in ready /\ ready' = ready \ {i} /\ list' = Without(i)
  /\ (IF sock[i] = "up" THEN AOk(i) ELSE AFail(i, now)) /\ UNCHANGED <<now, active, left, sock>>
CannotTry(i) == att[i].st = "trying" /\ att[i].ans = "never" /\ AFail(i, now) /\ UNCHANGED <<now, list, active, left, sock, ready>>
Scan ==
  /\ Due /\ UNCHANGED <<now, ready, att>>
  /\ LET i == list[1] IN
     IF left[i] > 0
     THEN left' = [left EXCEPT ![i] = @ - 1] /\ list' = Append(Tail(list), i) /\ active' = [active EXCEPT ![i] = now] /\ UNCHANGED sock
     ELSE list' = Tail(list) /\ UNCHANGED <<active, left>> /\ ShutSock(i)
AtRest == /\ ~Due /\ \A i \in Attempts : att[i].st = "trying" => att[i].ans # "never" /\ sock[i] = "pending"
Tick == AtRest /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<att, list, active, left, sock, ready>>
CloseIt(i) == AClose(i) /\ sock' = [sock EXCEPT ![i] = "none"] /\ UNCHANGED <<now, list, active, left, ready>>
Next == Scan \/ Tick \/ \E i \in Attempts :
           \/ \E ans \in Answers, held \in BOOLEAN, r \in 0 .. MaxR : Try(i, ans, held, r)
           \/ Release(i) \/ Abort(i) \/ Event(i) \/ Deliver(i) \/ CannotTry(i) \/ CloseIt(i)
Spec == Init /\ [][Next]_vars
OnceInList == \A i, j \in DOMAIN list : list[i] = list[j] => i = j
Sorted == \A i, j \in DOMAIN list : i < j => active[list[i]] <= active[list[j]]
NotLate == ATimely(now)
(* what the loop was told of can be delivered in a way that Connect allows *)
NeverStuck == \A i \in ready : att[i].st = "trying" /\ ENABLED Deliver(i)
Watched == \A i \in Attempts : att[i].st = "trying" /\ att[i].ans # "never" /\ sock[i] = "pending" => \E k \in DOMAIN list : list[k] = i
=============================================================================
