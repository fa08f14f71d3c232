------------------------------ MODULE ByteQueue ------------------------------
(* A queue of bytes (a string): what every stream buffer, and every stream    *)
(* connection, implements.                                                    *)
EXTENDS ByteStr
VARIABLE q
QInit == q = ""
Put(d) == q' = q \o d
Unget(d) == q' = d \o q
Skip(n) == n <= Len(q) /\ q' = From(q, n)
Get(d) == IsPrefix(d, q) /\ Skip(Len(d))
Clear == q' = ""
=============================================================================
