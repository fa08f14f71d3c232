------------------------------- MODULE MC_File -------------------------------
(* The way operations are carried out: a direct read asks the kernel for whole   *)
(* units from the unit that holds the position, and reports the part of the      *)
(* answer that the caller asked for; full forms repeat.  What is reported must   *)
(* be what File says, for every answer the kernel may give.                      *)
EXTENDS File
CONSTANTS MaxOps, MaxLen, MaxOff
VARIABLES left,    \* operations still to start
          run,     \* handle -> the operation as the library sees it
          good     \* everything reported so far was right
vars == <<fvars, left, run, good>>
MAlign(x) == 2
Idle == [st |-> "none"]
Init == /\ FInit /\ files \in [{0} -> {<<>>, <<<<3, "x">>>>, <<<<1, "x">>, <<3, "y">>>>}] /\ left = MaxOps
        /\ run = [h \in Handles |-> Idle] /\ good = TRUE
Data(len) == IF len = 0 THEN <<>> ELSE IF len = 1 THEN <<<<1, "p">>>> ELSE <<<<1, "p">>, <<len - 1, "q">>>>
Use == left > 0 /\ left' = left - 1
Open(h, m, d) == Use /\ FOpen(h, 0, m, d) /\ UNCHANGED <<run, good>>
Close(h) == Use /\ FClose(h) /\ UNCHANGED <<run, good>>
MSeek(h, p, off) == Use /\ hd[h].open /\ (p = "cur" => hd[h].off + off >= 0) /\ Seek(h, p, off, TRUE) /\ UNCHANGED <<run, good>>
\* direct writes are for whole units at whole units
Fits(h, k, len) == (hd[h].d /\ k \in {"w", "wf"}) => len % A = 0 /\ hd[h].off % A = 0
Start(h, k, len) == /\ Use /\ hd[h].open /\ Fits(h, k, len) /\ (k = "rf" => ~hd[h].d)
                    /\ Begin(h, k, len, IF k \in {"w", "wf"} THEN Data(len) ELSE <<>>)
                    /\ run' = [run EXCEPT ![h] = [st |-> "ask", todo |-> len, acc |-> <<>>, res |-> 0, buf |-> <<>>, got |-> 0]]
                    /\ UNCHANGED good
AskOff(h) == IF hd[h].d THEN (hd[h].off \div A) * A ELSE hd[h].off
AskLen(h) == IF hd[h].d /\ IsRead(op[h]) THEN MaxI(A, Up(run[h].todo)) ELSE run[h].todo
Kernel(h) ==
  /\ run[h].st = "ask" /\ ~(op[h].k \in {"rf", "wf"} /\ run[h].todo = 0)
  /\ LET all == IF IsRead(op[h]) THEN MinI(AskLen(h), MaxI(0, RLen(files[0]) - AskOff(h))) ELSE AskLen(h)
         bytes == RSlice(files[0], AskOff(h), all) IN
     \E res \in (-1) .. all :
       /\ (~May(h) => res = -1)
       /\ (hd[h].d /\ ~IsRead(op[h]) /\ res > 0 => res % A = 0)
       /\ Io(h, res, May(h) /\ res # all)
       /\ run' = [run EXCEPT ![h] = [@ EXCEPT !.st = "answer", !.res = res, !.buf = IF IsRead(op[h]) /\ res > 0 THEN RTake(bytes, res) ELSE <<>>,
                                             !.got = hd[h].off % A]]
  /\ UNCHANGED <<left, good>>
(* what the library makes of the answer *)
Adjusted(h) == LET r == run[h] IN
               IF ~hd[h].d \/ ~IsRead(op[h]) THEN r.res
               ELSE IF r.res < 0 THEN r.res ELSE IF r.res <= r.got THEN 0 ELSE MinI(r.res - r.got, r.todo)
Part(h) == IF ~IsRead(op[h]) \/ Adjusted(h) <= 0 THEN <<>> ELSE RSlice(run[h].buf, IF hd[h].d THEN run[h].got ELSE 0, Adjusted(h))
Answer(h) ==
  /\ run[h].st = "answer"
  /\ LET n == Adjusted(h)  acc == RCat(run[h].acc, Part(h)) IN
     IF op[h].k \in {"r", "w"}
     THEN /\ good' = (good /\ (IF op[h].k = "r" THEN n = op[h].last /\ acc = op[h].got ELSE n = op[h].last))
          /\ run' = [run EXCEPT ![h] = Idle] /\ End(h)
     ELSE IF n <= 0
     THEN /\ good' = (good /\ ENABLED EndF(h, FALSE, run[h].todo, acc)) /\ run' = [run EXCEPT ![h] = Idle] /\ End(h)
     ELSE run' = [run EXCEPT ![h] = [@ EXCEPT !.st = "ask", !.todo = @ - n, !.acc = acc]] /\ UNCHANGED <<fvars, good>>
  /\ UNCHANGED left
FullDone(h) == /\ run[h].st = "ask" /\ op[h].k \in {"rf", "wf"} /\ run[h].todo = 0
               /\ good' = (good /\ ENABLED EndF(h, TRUE, 0, run[h].acc)) /\ run' = [run EXCEPT ![h] = Idle] /\ End(h) /\ UNCHANGED left
Next == \E h \in Handles :
          \/ \E m \in {"r", "a", "m", "w", "rw"}, d \in BOOLEAN : (m = "a" => ~d) /\ Open(h, m, d)
          \/ Close(h) \/ Kernel(h) \/ Answer(h) \/ FullDone(h)
          \/ \E o \in 0 .. MaxOff : MSeek(h, "set", o)
          \/ \E o \in {-1, 1} : MSeek(h, "cur", o)
          \/ \E k \in {"r", "rf", "w", "wf"}, len \in 0 .. MaxLen : Start(h, k, len)
Spec == Init /\ [][Next]_vars
Right == good
PositionNotNegative == \A h \in Handles : hd[h].open => hd[h].off >= 0
NormalForm == \A i \in DOMAIN files[0] : files[0][i][1] > 0 /\ (i > 1 => files[0][i][2] # files[0][i - 1][2])
=============================================================================
