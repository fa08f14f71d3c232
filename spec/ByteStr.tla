------------------------------- MODULE ByteStr -------------------------------
(* Byte strings as TLA+ strings over an alphabet of single-character bytes.   *)
EXTENDS Integers, Sequences, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))
IsPrefix(p, s) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
=============================================================================
