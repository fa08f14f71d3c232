----------------------------- MODULE MC_FEvent -----------------------------
EXTENDS FEvent
CONSTANTS Ops, Auto, Merge, MaxNotices
VARIABLES started, notices, resets
vars == <<evars, started, notices, resets>>
Init == EInit /\ started = {} /\ notices = 0 /\ resets = 0
Next ==
  \/ \E x \in Ops \ started : Wait(Auto, x) /\ started' = started \cup {x} /\ UNCHANGED <<notices, resets>>
  \/ notices < MaxNotices /\ Notice(Auto, Merge, notices) /\ notices' = notices + 1 /\ UNCHANGED <<started, resets>>
  \/ resets < 2 /\ ~Auto /\ Reset /\ resets' = resets + 1 /\ UNCHANGED <<started, notices>>
  \/ TryFail /\ UNCHANGED <<started, notices, resets>>
Spec == Init /\ [][Next]_vars
Released == DOMAIN freed
NoSpurious == Released # {} => notices > 0
OnePerNotice == Auto => Cardinality(Released) + ev <= notices
Valued == ~Auto => (\A x \in Released : freed[x] \in 0 .. notices - 1) /\ (ev = 1 => val = notices - 1)
NoLost == waiting # {} => ev = 0
Consistent == Released \cap waiting = {} /\ Released \cup waiting = started
ManualAll == (~Auto /\ ev = 1) => waiting = {}
MergeBound == (Auto /\ Merge = 1) => ev <= 1
=============================================================================
