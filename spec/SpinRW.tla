------------------------------ MODULE SpinRW ------------------------------
(* Spinning reader-writer lock and its writer-preferring variant.            *)
(* A request stays in rq/wq until it enters.  block[r]: waiting writers that *)
(* r found waiting behind readers: one of them must enter before r does.     *)
EXTENDS Naturals, FiniteSets
VARIABLES rd, wrt, rq, wq, block
svars == <<rd, wrt, rq, wq, block>>
SInit == rd = {} /\ wrt = {} /\ rq = {} /\ wq = {} /\ block = <<>>
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
AskRead(t, b) == rq' = rq \cup {t} /\ block' = Put(block, t, b) /\ UNCHANGED <<rd, wrt, wq>>
AskWrite(t) == wq' = wq \cup {t} /\ UNCHANGED <<rd, wrt, rq, block>>
EnterRead(t) == t \in rq /\ wrt = {} /\ block[t] = {} /\ rq' = rq \ {t} /\ rd' = rd \cup {t} /\ UNCHANGED <<wrt, wq, block>>
EnterWrite(t) == /\ t \in wq /\ wrt = {} /\ rd = {} /\ wq' = wq \ {t} /\ wrt' = {t}
                 /\ block' = [y \in DOMAIN block |-> IF t \in block[y] THEN {} ELSE block[y]]
                 /\ UNCHANGED <<rd, rq>>
LeaveRead(t) == t \in rd /\ rd' = rd \ {t} /\ UNCHANGED <<wrt, rq, wq, block>>
LeaveWrite(t) == t \in wrt /\ wrt' = {} /\ UNCHANGED <<rd, rq, wq, block>>
=============================================================================
