------------------------------ MODULE MC_Atoms ------------------------------
(* What the counters are made of: an addition is a loop of compare and swap, and *)
(* a string's count is kept by such a counter in the string itself.              *)
EXTENDS Integers, Sequences
CONSTANTS Base, Threads, Vars, Strings, MaxCalls, MaxRefs
VARIABLES val, ap, hold, born, text,
          pc,      \* thread -> <<>>, or <<"try", seen>> inside an addition
          cnt,     \* string -> its count
          freed,   \* string -> how often it was freed
          calls
vars == <<val, ap, hold, born, text, pc, cnt, freed, calls>>
A == INSTANCE Atoms
Two == {<<x, y>> : x \in 0..Base - 1, y \in 0..Base - 1}
Init == /\ val = [v \in Vars |-> <<Base - 1, 0>>] /\ ap = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> <<>>]
        /\ hold = [t \in Threads |-> [s \in Strings |-> 0]] /\ born = [s \in Strings |-> ""] /\ text = [s \in Strings |-> ""]
        /\ cnt = [s \in Strings |-> 0] /\ freed = [s \in Strings |-> 0] /\ calls = 0
Keep == UNCHANGED <<pc, cnt, freed>>
Args(op) == CASE op \in {"inc", "dec", "get"} -> {<<<<0, 0>>, <<0, 0>>>>}
              [] op = "cas" -> {<<a, b>> : a \in {<<Base - 1, 0>>, <<0, 1>>}, b \in {<<0, 1>>, <<1, 0>>}}
              [] OTHER -> {<<a, <<0, 0>>>> : a \in {<<1, 0>>, <<Base - 1, Base - 1>>}}
Begin(t) == /\ calls < MaxCalls /\ calls' = calls + 1 /\ Keep
            /\ \E op \in {"inc", "dec", "add", "sub", "set", "get", "cas"}, v \in Vars : \E a \in Args(op) : A!Call(t, op, v, a[1], a[2])
Loops(t) == ap[t] # <<>> /\ ap[t][1] = "call" /\ ap[t][2] \in {"inc", "dec", "add", "sub"}
(* one look, then a compare and swap, again when somebody was faster *)
See(t) == /\ Loops(t) /\ pc[t] = <<>> /\ pc' = [pc EXCEPT ![t] = <<"try", val[ap[t][3]]>>]
          /\ UNCHANGED <<val, ap, hold, born, text, cnt, freed, calls>>
Swap(t) == /\ Loops(t) /\ pc[t] # <<>> /\ pc' = [pc EXCEPT ![t] = <<>>]
           /\ IF val[ap[t][3]] = pc[t][2]
              THEN LET e == A!Effect(ap[t][2], pc[t][2], ap[t][4], ap[t][5])
                   IN val' = [val EXCEPT ![ap[t][3]] = e[1]] /\ ap' = [ap EXCEPT ![t] = <<"done", e[2]>>]
              ELSE UNCHANGED <<val, ap>>
           /\ UNCHANGED <<hold, born, text, cnt, freed, calls>>
Plain(t) == /\ ~Loops(t) /\ A!Act(t) /\ Keep /\ UNCHANGED calls
Return(t) == /\ (\E r \in Two \cup {<<0>>, <<1>>} : A!Back(t, r)) /\ Keep /\ UNCHANGED calls
MakeS(t, s) == /\ A!Make(t, s, "x") /\ cnt' = [cnt EXCEPT ![s] = 1] /\ UNCHANGED <<pc, freed, calls>>
TakeS(t, s) == /\ cnt[s] < MaxRefs /\ A!Take(t, s) /\ cnt' = [cnt EXCEPT ![s] = @ + 1] /\ UNCHANGED <<pc, freed, calls>>
GiveS(t, u, s) == t # u /\ A!Give(t, u, s) /\ Keep /\ UNCHANGED calls
DropS(t, s) == /\ hold[t][s] > 0 /\ cnt' = [cnt EXCEPT ![s] = @ - 1] /\ hold' = [hold EXCEPT ![t][s] = @ - 1]
               /\ IF cnt[s] = 1 THEN freed' = [freed EXCEPT ![s] = @ + 1] /\ text' = [text EXCEPT ![s] = A!Gone] ELSE UNCHANGED <<freed, text>>
               /\ UNCHANGED <<val, ap, born, pc, calls>>
Next == \/ \E t \in Threads : Begin(t) \/ See(t) \/ Swap(t) \/ Plain(t) \/ Return(t)
        \/ \E t \in Threads, s \in Strings : MakeS(t, s) \/ TakeS(t, s) \/ DropS(t, s) \/ \E u \in Threads : GiveS(t, u, s)
Fair == \A t \in Threads : WF_vars(See(t)) /\ SF_vars(Swap(t)) /\ WF_vars(Plain(t)) /\ WF_vars(Return(t))
Spec == Init /\ [][Next]_vars /\ Fair
ANext == \/ \E t \in Threads : A!Act(t) \/ \E r \in Two \cup {<<0>>, <<1>>} : A!Back(t, r)
         \/ \E t \in Threads, v \in Vars, op \in {"inc", "dec", "add", "sub", "set", "get", "cas"} : \E a \in Args(op) : A!Call(t, op, v, a[1], a[2])
         \/ \E t \in Threads, s \in Strings : A!Make(t, s, "x") \/ A!Take(t, s) \/ A!Drop(t, s) \/ \E u \in Threads : A!Give(t, u, s)
Refines == [][ANext]_<<val, ap, hold, born, text>>
FreedOnce == \A s \in Strings : freed[s] <= 1
FreedLast == \A s \in Strings : (freed[s] > 0) = (text[s] = A!Gone) /\ (A!Held(s) => text[s] = born[s]) /\ (text[s] = born[s] /\ born[s] # "" => A!Held(s))
(* additions and their opposites are exact in the ring *)
Ring == \A x \in Two, y \in Two : /\ A!Plus(x, A!Neg(x)) = <<0, 0>> /\ A!Plus(x, y) = A!Plus(y, x)
                                  /\ (A!Plus(x, y)[1] + Base * A!Plus(x, y)[2]) = ((x[1] + y[1] + Base * (x[2] + y[2])) % (Base * Base))
Answered == \A t \in Threads : (ap[t] # <<>>) ~> (ap[t] = <<>>)
=============================================================================
