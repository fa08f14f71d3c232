--------------------------------- MODULE Runs ---------------------------------
(* Byte strings in run-length form: a sequence of <<length, byte>>, neighbours   *)
(* having different bytes, no empty run.                                         *)
EXTENDS Integers, Sequences
LOCAL Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE RLen(_)
RLen(r) == IF r = <<>> THEN 0 ELSE r[1][1] + RLen(Tail(r))
RCat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE IF a[Len(a)][2] # b[1][2] THEN a \o b
              ELSE SubSeq(a, 1, Len(a) - 1) \o <<<<a[Len(a)][1] + b[1][1], b[1][2]>>>> \o Tail(b)
RECURSIVE RTake(_, _)
RTake(r, n) == IF n <= 0 \/ r = <<>> THEN <<>>
               ELSE <<<<Min(n, r[1][1]), r[1][2]>>>> \o (IF r[1][1] >= n THEN <<>> ELSE RTake(Tail(r), n - r[1][1]))
RECURSIVE RFrom(_, _)
RFrom(r, n) == IF n <= 0 \/ r = <<>> THEN r
               ELSE IF r[1][1] <= n THEN RFrom(Tail(r), n - r[1][1])
               ELSE <<<<r[1][1] - n, r[1][2]>>>> \o Tail(r)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<<<n, "0">>>>
RSlice(r, off, n) == RTake(RFrom(r, off), n)
(* d stored at off, the gap before it filled with zeros *)
RPut(r, off, d) == IF d = <<>> THEN r
                   ELSE RCat(RCat(RCat(RTake(r, off), Zeros(off - RLen(r))), d), RFrom(r, off + RLen(d)))
=============================================================================
