---------------------------- MODULE TraceFMutex ----------------------------
(* Trace validation: the inv/ret history recorded from the code must be a    *)
(* linearizable behaviour of FMutex.  Operation codes: 1 lock, 2 try-lock    *)
(* (a = bound, b = accepted), 3 unlock, 4 set limit (a), 5 callback lock.    *)
EXTENDS FMutex, TraceBase
VARIABLES pend   \* fiber -> operation code that is invoked and has not taken effect; -code once it has
vars == <<tid, pos, mvars, pend>>

Init == /\ TraceInit
        /\ MInit(Cfg.lim)
        /\ pend = [f \in 1..Cfg.nf |-> <<0, 0, 0>>]

(* two clients of one selector only alternate when one of them suspends or has *)
(* returned, so a call that suspended its client has already taken effect      *)
Others == \A h \in DOMAIN pend : (h # E.f /\ Cfg.sel[h] = Cfg.sel[E.f] /\ pend[h][1] # 0) => pend[h][3] # 0
Inv == /\ IsEvent("inv") /\ Others
       /\ pend[E.f][1] = 0
       /\ pend' = [pend EXCEPT ![E.f] = <<E.o, E.a, 0>>]
       /\ UNCHANGED mvars
(* taking effect *)
Lin(f) ==
  LET p == pend[f] IN
  /\ p[1] # 0 /\ p[3] = 0
  /\ \/ /\ p[1] \in {1, 5} /\ Request(f) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ /\ p[1] = 2 /\ Accept(f, p[2]) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ /\ p[1] = 2 /\ Refuse(f, p[2]) /\ pend' = [pend EXCEPT ![f][3] = 2]
     \/ /\ p[1] = 3 /\ Release(f) /\ pend' = [pend EXCEPT ![f][3] = 1]
     \/ /\ p[1] = 4 /\ SetLimit(p[2]) /\ pend' = [pend EXCEPT ![f][3] = 1]
  /\ Silent
GrantStep(f) == Grant(f) /\ UNCHANGED pend /\ Silent
Ret == /\ IsEvent("ret") /\ Others
       /\ LET p == pend[E.f] IN
          /\ p[1] = E.o /\ p[3] # 0
          /\ E.o \in {1, 5} => E.f \in holders
          /\ E.o = 2 => IF E.b = 1 THEN p[3] = 1 /\ E.f \in holders ELSE p[3] = 2
       /\ pend' = [pend EXCEPT ![E.f] = <<0, 0, 0>>]
       /\ UNCHANGED mvars
(* the end: everybody finished (nobody left suspended), the counters are back at zero *)
End == /\ IsEvent("End")
       /\ \A f \in DOMAIN pend : pend[f][1] = 0
       /\ holders = {} /\ waiters = {}
       /\ E.o = 0 /\ E.a = 0 /\ E.b = 1
       /\ UNCHANGED <<mvars, pend>>
Next == Inv \/ Ret \/ End \/ \E f \in DOMAIN pend : Lin(f) \/ GrantStep(f)
Spec == Init /\ [][Next]_vars
=============================================================================
