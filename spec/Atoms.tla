-------------------------------- MODULE Atoms --------------------------------
(* Shared counters of 1, 2 or 4 limbs (16, 32 or 64 bits): every operation takes *)
(* effect at one moment between its call and its return.  A shared string is     *)
(* counted by such a cell: it lives exactly as long as somebody holds it.        *)
EXTENDS Integers, Sequences
CONSTANTS Base,     \* values of a limb
          Threads
VARIABLES val,      \* cell -> limbs, the lowest first
          ap,       \* thread -> <<>>, or <<"call", op, cell, a, b>>, or <<"done", result>>
          hold,     \* thread -> string -> references it holds
          born,     \* string -> its text, once it exists
          text      \* string -> text or the mark of one that is gone
avars == <<val, ap, hold, born, text>>
Gone == "-"
RECURSIVE AddL(_, _, _)
AddL(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET s == Head(x) + Head(y) + c IN <<s % Base>> \o AddL(Tail(x), Tail(y), s \div Base)
Plus(x, y) == AddL(x, y, 0)
Zero(x) == [i \in 1..Len(x) |-> 0]
One(x) == [i \in 1..Len(x) |-> IF i = 1 THEN 1 ELSE 0]
Neg(x) == AddL([i \in 1..Len(x) |-> Base - 1 - x[i]], One(x), 0)
(* <<new value, result>> *)
Effect(op, x, a, b) ==
  CASE op = "inc" -> LET n == Plus(x, One(x)) IN <<n, n>>
    [] op = "dec" -> LET n == Plus(x, Neg(One(x))) IN <<n, n>>
    [] op = "add" -> <<Plus(x, a), x>>
    [] op = "sub" -> <<Plus(x, Neg(a)), x>>
    [] op = "set" -> <<a, x>>
    [] op = "get" -> <<x, x>>
    [] op = "cas" -> IF x = a THEN <<b, <<1>>>> ELSE <<x, <<0>>>>
Call(t, op, v, a, b) == /\ ap[t] = <<>> /\ ap' = [ap EXCEPT ![t] = <<"call", op, v, a, b>>] /\ UNCHANGED <<val, hold, born, text>>
Act(t) == /\ ap[t] # <<>> /\ ap[t][1] = "call"
          /\ LET e == Effect(ap[t][2], val[ap[t][3]], ap[t][4], ap[t][5])
             IN val' = [val EXCEPT ![ap[t][3]] = e[1]] /\ ap' = [ap EXCEPT ![t] = <<"done", e[2]>>]
          /\ UNCHANGED <<hold, born, text>>
Back(t, r) == /\ ap[t] # <<>> /\ ap[t][1] = "done" /\ ap[t][2] = r
              /\ ap' = [ap EXCEPT ![t] = <<>>] /\ UNCHANGED <<val, hold, born, text>>
(* strings; a thread gets its references from one that holds some *)
RECURSIVE Refs(_, _)
Refs(s, ts) == IF ts = {} THEN 0 ELSE LET t == CHOOSE x \in ts : TRUE IN hold[t][s] + Refs(s, ts \ {t})
Held(s) == \E t \in Threads : hold[t][s] > 0
Make(t, s, d) == /\ text[s] = "" /\ text' = [text EXCEPT ![s] = d] /\ born' = [born EXCEPT ![s] = d]
                 /\ hold' = [hold EXCEPT ![t][s] = 1] /\ UNCHANGED <<val, ap>>
Take(t, s) == /\ hold[t][s] > 0 /\ hold' = [hold EXCEPT ![t][s] = @ + 1] /\ UNCHANGED <<val, ap, born, text>>
Give(t, u, s) == /\ hold[t][s] > 0 /\ hold' = [hold EXCEPT ![t][s] = @ - 1, ![u][s] = @ + 1] /\ UNCHANGED <<val, ap, born, text>>
Drop(t, s) == /\ hold[t][s] > 0 /\ hold' = [hold EXCEPT ![t][s] = @ - 1]
              /\ text' = [text EXCEPT ![s] = IF Refs(s, Threads) = 1 THEN Gone ELSE @] /\ UNCHANGED <<val, ap, born>>
Look(t, s, d) == hold[t][s] > 0 /\ text[s] = d /\ UNCHANGED avars
=============================================================================
