--------------------------------- MODULE File ---------------------------------
(* Files and open handles with a position.  A transfer is carried out by the     *)
(* kernel (Io), which may be cut short or fail; an operation of the single forms *)
(* is one transfer, of the full forms as many as it takes.                       *)
EXTENDS Runs, TLC
CONSTANTS Handles, Align(_)   \* Align(0): the unit of direct transfers
VARIABLES files,   \* number -> content
          hd,      \* handle -> [open, file, m, d, off]
          op       \* handle -> its operation or [k |-> "none"]
fvars == <<files, hd, op>>
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
A == Align(0)
Up(n) == ((n + A - 1) \div A) * A
NoOp == [k |-> "none"]
Readable(m) == m \in {"r", "rw", "wr"}
Writable(m) == m \in {"a", "m", "w", "rw", "wr"}
FInit == /\ hd = [h \in Handles |-> [open |-> FALSE]] /\ op = [h \in Handles |-> NoOp]
FOpen(h, f, m, d) == /\ ~hd[h].open
                     /\ hd' = [hd EXCEPT ![h] = [open |-> TRUE, file |-> f, m |-> m, d |-> d, off |-> 0]]
                     /\ files' = [files EXCEPT ![f] = IF m \in {"w", "wr"} THEN <<>> ELSE @]
                     /\ UNCHANGED op
FClose(h) == hd[h].open /\ op[h].k = "none" /\ hd' = [hd EXCEPT ![h] = [open |-> FALSE]] /\ UNCHANGED <<files, op>>
(* where a transfer of this operation takes place *)
IsRead(o) == o.k \in {"r", "rf"}
Begin(h, k, len, data) == /\ hd[h].open /\ op[h].k = "none"
                          /\ op' = [op EXCEPT ![h] = [k |-> k, want |-> len, data |-> data, got |-> <<>>, ios |-> 0, last |-> 0]]
                          /\ UNCHANGED <<files, hd>>
Over(o) == IF o.ios = -1 THEN TRUE ELSE IF o.k \in {"r", "w"} THEN o.ios = 1 ELSE o.want = 0 \/ (o.ios > 0 /\ o.last <= 0)
(* all there is to transfer; a direct read has room for whole units of the buffer only *)
Full(h) == LET o == op[h]  H == hd[h] IN
           IF IsRead(o) THEN MinI(MinI(o.want, MaxI(0, RLen(files[H.file]) - H.off)),
                                  IF H.d THEN MaxI(A, Up(o.want)) - (H.off % A) ELSE o.want)
           ELSE o.want
Usable(h, res) == IF hd[h].d /\ IsRead(op[h]) THEN MinI(MaxI(0, res - (hd[h].off % A)), op[h].want) ELSE res
May(h) == IF IsRead(op[h]) THEN Readable(hd[h].m) ELSE Writable(hd[h].m)
Io(h, res, cut) ==
  LET o == op[h]  H == hd[h]  n == Usable(h, res)
      w == RTake(o.data, n) IN
  /\ o.k # "none" /\ ~Over(o)
  /\ IF res < 0 THEN /\ cut \/ ~May(h)
                     /\ op' = [op EXCEPT ![h] = [o EXCEPT !.ios = @ + 1, !.last = -1]] /\ UNCHANGED <<files, hd>>
     ELSE /\ May(h) /\ n <= Full(h) /\ (~cut => n = Full(h))
          /\ op' = [op EXCEPT ![h] = [o EXCEPT !.ios = @ + 1, !.last = n, !.want = @ - n,
                                      !.data = RFrom(@, n), !.got = IF IsRead(o) THEN RCat(@, RSlice(files[H.file], H.off, n)) ELSE @]]
          /\ hd' = [hd EXCEPT ![h].off = @ + n]
          /\ files' = IF IsRead(o) THEN files
                      ELSE [files EXCEPT ![H.file] = RPut(@, IF H.m = "a" THEN RLen(@) ELSE H.off, w)]
(* what is reported *)
EndR(h, got, data) == /\ op[h].k = "r" /\ op[h].ios # 0 /\ got = op[h].last /\ data = op[h].got
EndW(h, got) == op[h].k = "w" /\ op[h].ios # 0 /\ got = op[h].last
EndF(h, ok, left, data) == /\ op[h].k \in {"rf", "wf"} /\ Over(op[h])
                           /\ ok = (op[h].want = 0 /\ op[h].ios # -1) /\ left = op[h].want /\ data = op[h].got
End(h) == op' = [op EXCEPT ![h] = NoOp] /\ UNCHANGED <<files, hd>>
(* a form for another loop may fail before anything happens, when no fiber can be made there *)
NoFiber(h) == op[h].k # "none" /\ op[h].ios = 0 /\ op' = [op EXCEPT ![h].ios = -1, ![h].last = -1] /\ UNCHANGED <<files, hd>>
Seek(h, p, off, ok) ==
  /\ hd[h].open /\ op[h].k = "none" /\ UNCHANGED <<files, op>>
  /\ CASE p = "set" -> ok /\ hd' = [hd EXCEPT ![h].off = off]
       [] p = "cur" -> ok /\ hd' = [hd EXCEPT ![h].off = @ + off]
       [] p = "end" -> IF ok THEN hd' = [hd EXCEPT ![h].off = RLen(files[hd[h].file]) + off] ELSE UNCHANGED hd
=============================================================================
