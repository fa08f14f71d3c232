------------------------------- MODULE Connect -------------------------------
(* Connection attempts.  What becomes of one is decided by the peer: it is       *)
(* there, it refuses, or it never answers; the loop may learn of it only later.   *)
EXTENDS Integers
CONSTANTS Attempts, Lim(_),
          Slack,   \* how far a loop's clock may be behind
          Late,    \* how late it may notice that the limit passed, each round
          Soon     \* how late it may notice what the peer decided
VARIABLES att      \* attempt -> its state
Answers == {"there", "refuses", "silent", "never"}     \* never: it cannot even be tried
AInit == att = [i \in Attempts |-> [st |-> "idle"]]
(* known: the time from which on the loop can know the answer, -1: not yet *)
ATry(i, ans, held, r, t) ==
  /\ att[i].st = "idle"
  /\ att' = [att EXCEPT ![i] = [st |-> "trying", ans |-> ans, since |-> t, r |-> r, abort |-> FALSE,
                                known |-> IF ~held /\ ans # "silent" THEN t ELSE -1]]
ARelease(i, t) == /\ att[i].st = "trying" /\ att' = [att EXCEPT ![i].known = IF @ = -1 /\ att[i].ans # "silent" THEN t ELSE @]
AAbort(i, t) == /\ att[i].st = "trying" /\ att' = [att EXCEPT ![i].abort = TRUE, ![i].known = IF @ = -1 THEN t ELSE @]
MayExpire(i, t) == t - att[i].since >= Lim(i) * (att[i].r + 1) - Slack
AOk(i) ==
  /\ att[i].st = "trying" /\ att[i].ans = "there" /\ att[i].known # -1
  /\ att' = [att EXCEPT ![i] = [st |-> "up", abort |-> att[i].abort]]
AFail(i, t) ==
  /\ att[i].st = "trying"
  /\ \/ att[i].ans = "refuses" /\ att[i].known # -1
     \/ att[i].ans = "never" \/ att[i].abort \/ MayExpire(i, t)
  /\ att' = [att EXCEPT ![i] = [st |-> "down"]]
(* it can be used at once, unless it was aborted *)
AUse(i, good) == att[i].st = "up" /\ (good \/ att[i].abort) /\ UNCHANGED att
AClose(i) == att[i].st \in {"up", "down"} /\ att' = [att EXCEPT ![i] = [st |-> "idle"]]
(* nothing that could be over hangs *)
ATimely(t) ==
  \A i \in Attempts : att[i].st = "trying" =>
    /\ t - att[i].since <= (Lim(i) + Late) * (att[i].r + 1) + Late
    /\ att[i].known # -1 => t - att[i].known <= Soon
=============================================================================
