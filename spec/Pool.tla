-------------------------------- MODULE Pool --------------------------------
(* A memory pool: live blocks (intervals of addresses), pool arrays (growing  *)
(* intervals) and registered cleanups.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES open,    \* 0 no pool, 1 in use, 2 being emptied for reuse, 3 being destroyed
          live,    \* id -> <<start, length>> of every live block
          arr,     \* id -> <<start, capacity, used>> of every live pool array
          cl,      \* cleanups registered and not run, oldest first
          once     \* the cleanup registered through the find-or-add form, 0 if none
pvars == <<open, live, arr, cl, once>>
PInit == open = 0 /\ live = <<>> /\ arr = <<>> /\ cl = <<>> /\ once = 0
Apart(a, n, b, k) == n = 0 \/ k = 0 \/ a + n <= b \/ b + k <= a
(* an interval shares no byte with a live block or with an array other than x *)
FreeRange(a, n, x) == TRUE = (/\ \A i \in DOMAIN live : Apart(a, n, live[i][1], live[i][2])
                              /\ \A i \in DOMAIN arr \ {x} : Apart(a, n, arr[i][1], arr[i][2]))
Put(f, i, v) == (i :> v) @@ f
Drop(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]

Create == open = 0 /\ open' = 1 /\ UNCHANGED <<live, arr, cl, once>>
Alloc(i, a, n) == /\ open = 1 /\ i \notin DOMAIN live /\ FreeRange(a, n, 0)
                  /\ live' = Put(live, i, <<a, n>>) /\ UNCHANGED <<open, arr, cl, once>>
Free(i) == open = 1 /\ i \in DOMAIN live /\ live' = Drop(live, i) /\ UNCHANGED <<open, arr, cl, once>>
(* cleanup records are pool memory too: identified by -id *)
Register(i, a, n) == /\ open = 1 /\ FreeRange(a, n, 0) /\ cl' = Append(cl, i)
                     /\ live' = Put(live, 0 - i, <<a, n>>) /\ UNCHANGED <<open, arr, once>>
RegisterOnce(i, a, n) == IF once # 0 THEN i = once /\ live[0 - i] = <<a, n>> /\ UNCHANGED pvars
                         ELSE /\ open = 1 /\ FreeRange(a, n, 0) /\ cl' = Append(cl, i) /\ once' = i
                              /\ live' = Put(live, 0 - i, <<a, n>>) /\ UNCHANGED <<open, arr>>
ArrayCreate(i, a, n) == /\ open = 1 /\ FreeRange(a, n, 0)
                        /\ live' = Put(live, i, <<a, n>>) /\ arr' = Put(arr, i, <<0, 0, 0>>) /\ UNCHANGED <<open, cl, once>>
(* an array holds at least what was pushed, wherever its elements are now *)
ArrayAt(i, a, n, used) == /\ open = 1 /\ i \in DOMAIN arr /\ FreeRange(a, n, i) /\ used <= n /\ used >= arr[i][3]
                          /\ arr' = Put(arr, i, <<a, n, used>>) /\ UNCHANGED <<open, live, cl, once>>
ArrayDestroy(i) == open = 1 /\ i \in DOMAIN arr /\ arr' = Drop(arr, i) /\ live' = Drop(live, i) /\ UNCHANGED <<open, cl, once>>
StartEmpty(how) == open = 1 /\ open' = how /\ UNCHANGED <<live, arr, cl, once>>
(* the last cleanup registered runs first; the pool's memory is still there *)
Cleanup(i) == open \in {2, 3} /\ cl # <<>> /\ cl[Len(cl)] = i /\ cl' = SubSeq(cl, 1, Len(cl) - 1) /\ UNCHANGED <<open, live, arr, once>>
Emptied == /\ open \in {2, 3} /\ cl = <<>> /\ open' = (IF open = 2 THEN 1 ELSE 0)
           /\ live' = <<>> /\ arr' = <<>> /\ once' = 0 /\ UNCHANGED cl
=============================================================================
