------------------------------- MODULE MC_Ticks -------------------------------
(* A loop as the code runs it - callbacks, then the list of ticks with the        *)
(* successor taken before each call, then a wait of at most the least answer -     *)
(* does only what Ticks allows.                                                    *)
EXTENDS Ticks, FiniteSets, TLC
CONSTANTS Ids, Answers, MaxT
VARIABLES now, pc, p, np, mn, used
vars == <<tkvars, now, pc, p, np, mn, used>>
S == CHOOSE s \in Loops : TRUE
Init == TkInit /\ now = 0 /\ pc = "cb" /\ p = 0 /\ np = 0 /\ mn = Longest /\ used = {}
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0        \* 0: the head of the list
After(q, k) == LET i == CHOOSE i \in 1 .. Len(q) : q[i] = k IN At(q, i + 1)
Impl == UNCHANGED <<now, pc, p, np, mn>>
Reg == \E k \in Ids \ used : Register(S, k, now) /\ used' = used \cup {k} /\ pc = "cb" /\ Impl
Cls == pc = "cb" /\ (\E i \in 1 .. Len(tk[S]) : CloseTick(S, tk[S][i], now)) /\ UNCHANGED used /\ Impl
Work == pc = "cb" /\ now < MaxT /\ Spend(S, 1) /\ now' = now + 1 /\ UNCHANGED <<pc, p, np, mn, used>>
Begin == pc = "cb" /\ pc' = "ticks" /\ p' = At(tk[S], 1) /\ mn' = Longest /\ UNCHANGED <<tkvars, now, np, used>>
Do == /\ pc = "ticks" /\ p # 0 /\ np' = After(tk[S], p)
      /\ \E r \in Answers : Call(S, p, r, now) /\ mn' = Bound(r, mn)
      /\ pc' = "called" /\ UNCHANGED <<now, p, used>>
SelfClose == pc = "called" /\ (\E i \in 1 .. Len(tk[S]) : tk[S][i] = p) /\ CloseTick(S, p, now) /\ UNCHANGED <<now, pc, p, np, mn, used>>
Step == pc = "called" /\ p' = np /\ pc' = "ticks" /\ UNCHANGED <<tkvars, now, np, mn, used>>
Wait == pc = "ticks" /\ p = 0 /\ (\E d \in 0 .. mn : now + d <= MaxT /\ now' = now + d) /\ pc' = "cb" /\ UNCHANGED <<tkvars, p, np, mn, used>>
Next == Reg \/ Cls \/ Work \/ Begin \/ Do \/ SelfClose \/ Step \/ Wait
Spec == Init /\ [][Next]_vars
(* the code is never about to do what Ticks does not allow *)
CallAllowed == (pc = "ticks" /\ p # 0) => /\ nxt[S] <= Len(tk[S]) /\ tk[S][nxt[S]] = p /\ (nxt[S] = 1 => InTime(S, now))
TurnComplete == (pc = "ticks" /\ p = 0) => nxt[S] = 1
WaitBounded == (tk[S] # <<>> /\ pc = "cb") => InTime(S, now)
=============================================================================
