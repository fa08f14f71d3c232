----------------------------- MODULE FiberWait -----------------------------
(* Waits and wakeups of fibers: each wait of a fiber gets the one wakeup     *)
(* posted for it.                                                            *)
EXTENDS Integers, FiniteSets
VARIABLES mail, waits   \* fiber -> <<object, value>> posted and not consumed; fiber -> object it waits for
wvars == <<mail, waits>>
PutW(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
DelW(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
WInit == mail = <<>> /\ waits = <<>>
Wait(f, o) == f \notin DOMAIN waits /\ (f \in DOMAIN mail => mail[f][1] = o) /\ waits' = PutW(waits, f, o) /\ UNCHANGED mail
Wake(f, o, v) == f \notin DOMAIN mail /\ (f \in DOMAIN waits => waits[f] = o) /\ mail' = PutW(mail, f, <<o, v>>) /\ UNCHANGED waits
Woke(f, o, v) == /\ f \in DOMAIN waits /\ f \in DOMAIN mail /\ waits[f] = o /\ mail[f] = <<o, v>>
                 /\ waits' = DelW(waits, f) /\ mail' = DelW(mail, f)
Quiet == mail = <<>> /\ waits = <<>>
=============================================================================
