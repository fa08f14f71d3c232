---------------------------- MODULE MC_ByteQueue ----------------------------
(* histories of a byte queue: what was put, put back and taken always adds up *)
EXTENDS ByteQueue
CONSTANTS N, MaxQ
VARIABLES in, out   \* everything put (at the end) and taken so far; put-back bytes leave `out` again
vars == <<q, in, out>>
Bytes == {"a", "b"}
Init == QInit /\ in = "" /\ out = ""
Next == \/ \E d \in Bytes : Len(in) < N /\ Put(d) /\ in' = in \o d /\ UNCHANGED out
        \/ \E n \in 1..MaxQ : n <= Len(q) /\ Get(Take(q, n)) /\ out' = out \o Take(q, n) /\ UNCHANGED in
        \/ \E n \in 1..MaxQ : n <= Len(out) /\ Unget(From(out, Len(out) - n)) /\ out' = Take(out, Len(out) - n) /\ UNCHANGED in
Spec == Init /\ [][Next]_vars
Adds == out \o q = in
=============================================================================
