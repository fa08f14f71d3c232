------------------------------ MODULE PostBox ------------------------------
(* Callbacks posted to selectors: each runs exactly once, on its selector's  *)
(* thread, with what was posted.                                             *)
EXTENDS Naturals, FiniteSets
VARIABLES posted, ran   \* posted: id -> <<selector, data, argument, value>>; ran: set of ids
pvars == <<posted, ran>>
PInit == posted = <<>> /\ ran = {}
Post(id, m) == id \notin DOMAIN posted /\ posted' = [x \in DOMAIN posted \cup {id} |-> IF x = id THEN m ELSE posted[x]] /\ UNCHANGED ran
Run(id, m) == id \in DOMAIN posted /\ id \notin ran /\ posted[id] = m /\ ran' = ran \cup {id} /\ UNCHANGED posted
AllRan == ran = DOMAIN posted
=============================================================================
