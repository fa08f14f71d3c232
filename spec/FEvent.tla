------------------------------ MODULE FEvent ------------------------------
(* Abstract event: fiber conditions and thread events.  auto: each notice    *)
(* releases one wait; otherwise it stays signalled until reset.              *)
(* merge: whether notices without a wait in between merge (1 must, 0 may).   *)
EXTENDS Integers, FiniteSets
VARIABLES ev,       \* stored notices
          waiting,  \* operations that are suspended
          val,      \* the value given to the last notice of one that stays signalled
          freed     \* operation -> value it was released with (suspended ones), or -1: nothing to compare
evars == <<ev, waiting, freed, val>>
EInit == ev = 0 /\ val = 0 /\ waiting = {} /\ freed = <<>>

Free(fr, s, v) == [x \in (DOMAIN fr) \cup s |-> IF x \in s THEN v ELSE fr[x]]
Drop(fr, x) == [y \in (DOMAIN fr) \ {x} |-> fr[y]]

Notice(auto, merge, v) ==
  IF auto
    THEN IF waiting # {}
           THEN UNCHANGED val /\ \E w \in waiting : waiting' = waiting \ {w} /\ freed' = Free(freed, {w}, v) /\ ev' = ev
           ELSE /\ UNCHANGED <<waiting, freed, val>>
                /\ \/ ev' = IF ev = 0 THEN 1 ELSE ev
                   \/ merge = 0 /\ ev' = ev + 1
    ELSE val' = v /\ ev' = 1 /\ waiting' = {} /\ freed' = Free(freed, waiting, v)
(* operation x waits *)
Wait(auto, x) ==
  /\ UNCHANGED val
  /\ IF ev > 0
    THEN ev' = (IF auto THEN ev - 1 ELSE ev) /\ freed' = Free(freed, {x}, IF auto THEN 0-1 ELSE val) /\ UNCHANGED waiting
    ELSE waiting' = waiting \cup {x} /\ UNCHANGED <<ev, freed>>
TryOk(auto, x) == ev > 0 /\ Wait(auto, x)
TryFail == ev = 0 /\ UNCHANGED evars
Reset == ev' = 0 /\ UNCHANGED <<waiting, freed, val>>
=============================================================================
