---------------------------- MODULE TraceByteQueue ----------------------------
(* put d tl: appended, tl reported length; unget d tl: put in front; read n got  *)
(* d tl: took got of at most n; peek v max d z: the v vectors offered (at most   *)
(* max, none empty: z = 0) hold d; skip n more tl; clean; flat buffer: put d     *)
(* all fit, drop n all fit, take d more; sought n d; view n d; End live.         *)
EXTENDS ByteQueue, TraceBase
vars == <<tid, pos, q>>
Init == TraceInit /\ QInit
Has(f) == f \in DOMAIN E
Rest == /\ Has("tl") => E.tl = Len(q')
        /\ Has("all") => (E.all = q' /\ E.fit = 1)
Flag(b) == IF b THEN 1 ELSE 0
Next == \/ IsEvent("put") /\ (Has("room") => E.room > 0) /\ Put(E.d) /\ Rest
        \/ IsEvent("unget") /\ Unget(E.d) /\ Rest
        \/ IsEvent("read") /\ E.got = Min2(E.n, Len(q)) /\ E.got = Len(E.d) /\ Get(E.d) /\ Rest
        \/ /\ IsEvent("peek") /\ E.v <= E.max /\ E.z = 0 /\ IsPrefix(E.d, q) /\ ((q = "") = (E.d = ""))
           /\ (E.v < E.max => E.d = q) /\ UNCHANGED q
        \/ IsEvent("skip") /\ Skip(E.n) /\ E.more = Flag(q' # "") /\ Rest
        \/ IsEvent("clean") /\ Clear /\ Rest
        \/ IsEvent("drop") /\ Skip(E.n) /\ Rest
        \/ IsEvent("take") /\ Get(E.d) /\ E.more = Flag(q' # "")
        \/ IsEvent("sought") /\ Skip(E.n) /\ E.d = q'
        \/ IsEvent("view") /\ E.n <= Len(q) /\ E.d = From(q, E.n) /\ UNCHANGED q
        \/ IsEvent("End") /\ E.live = 0 /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
=============================================================================
