---------------------------- MODULE TraceFEvent ----------------------------
(* codes: 1 wait (ret b = value), 2 try-wait (ret a = 1 ok), 3 notice (inv a = value), 4 callback wait *)
(* (the completion is a separate "cb" event, b = value), 5 reset.  f identifies the operation.         *)
(* cfg: auto, merge, n (operation ids), anyval (a wait gets some value that was given, as the last      *)
(* value is stored beside the event)                                                                  *)
EXTENDS FEvent, TraceBase
VARIABLES pend, given
vars == <<tid, pos, evars, pend, given>>
Auto == Cfg.auto = 1
Init == TraceInit /\ EInit /\ given = {} /\ pend = [f \in 1..Cfg.n |-> <<0, 0, 0>>]
Inv == /\ IsEvent("inv") /\ pend[E.f][1] = 0
       /\ pend' = [pend EXCEPT ![E.f] = <<E.o, E.a, 0>>] /\ UNCHANGED evars
       /\ given' = IF E.o = 3 THEN given \cup {E.a} ELSE given
(* operations take effect as late as they can: when the next event shows the effect of one that did not yet *)
Due == CASE E.e = "ret" -> pend[E.f][3] = 0 \/ (E.o = 1 /\ E.f \notin DOMAIN freed)
         [] E.e = "cb" -> E.f \notin DOMAIN freed
         [] E.e = "End" -> TRUE
         [] OTHER -> FALSE
Lin(f) ==
  LET p == pend[f] IN
  /\ p[1] # 0 /\ p[3] = 0 /\ Silent /\ Due /\ UNCHANGED given
  /\ \/ p[1] \in {1, 4} /\ Wait(Auto, f) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ p[1] = 2 /\ TryOk(Auto, f) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ p[1] = 2 /\ TryFail /\ pend' = [pend EXCEPT ![f][3] = 2]
     \/ p[1] = 3 /\ Notice(Auto, Cfg.merge, p[2]) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ p[1] = 5 /\ Reset /\ pend' = [pend EXCEPT ![f][3] = 1]
ValueOk(x, b) == IF Cfg.anyval = 1 THEN b \in given ELSE freed[x] = 0-1 \/ freed[x] = b
Ret == /\ IsEvent("ret")
       /\ LET p == pend[E.f] IN
          /\ p[1] = E.o /\ p[3] # 0
          /\ E.o = 2 => (IF E.a = 1 THEN p[3] = 1 ELSE p[3] = 2)
          /\ E.o = 1 \/ (E.o = 2 /\ E.a = 1) => E.f \in DOMAIN freed /\ ValueOk(E.f, E.b)
       /\ freed' = IF E.o = 1 \/ (E.o = 2 /\ E.a = 1) THEN Drop(freed, E.f) ELSE freed
       /\ pend' = [pend EXCEPT ![E.f] = <<0, 0, 0>>] /\ UNCHANGED <<ev, waiting, val, given>>
Cb == /\ IsEvent("cb") /\ pend[E.f][1] = 4 /\ E.f \in DOMAIN freed /\ ValueOk(E.f, E.b)
      /\ freed' = Drop(freed, E.f)
      /\ pend' = [pend EXCEPT ![E.f] = <<0, 0, 0>>] /\ UNCHANGED <<ev, waiting, val, given>>
(* at the end everything that could complete has completed *)
End == /\ IsEvent("End")
       /\ \A f \in DOMAIN pend : pend[f][1] # 0 => (pend[f][1] \in {1, 4} /\ pend[f][3] = 1 /\ f \in waiting)
       /\ waiting # {} => ev = 0
       /\ UNCHANGED <<evars, pend, given>>
Next == Inv \/ Ret \/ Cb \/ End \/ \E f \in DOMAIN pend : Lin(f)
Spec == Init /\ [][Next]_vars
=============================================================================
