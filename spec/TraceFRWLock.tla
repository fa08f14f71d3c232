--------------------------- MODULE TraceFRWLock ---------------------------
(* codes: 1 read lock, 2 write lock, 3 read unlock, 4 write unlock *)
EXTENDS FRWLock, TraceBase
VARIABLE pend
vars == <<tid, pos, rwvars, pend>>
Init == TraceInit /\ RWInit /\ pend = [f \in 1..Cfg.nf |-> <<0, 0>>]
(* two clients of one selector only alternate when one of them suspends or has *)
(* returned, so a call that suspended its client has already taken effect      *)
Others == \A h \in DOMAIN pend : (h # E.f /\ Cfg.sel[h] = Cfg.sel[E.f] /\ pend[h][1] # 0) => pend[h][2] # 0
Inv == /\ IsEvent("inv") /\ Others /\ pend[E.f][1] = 0
       /\ pend' = [pend EXCEPT ![E.f] = <<E.o, 0>>] /\ UNCHANGED rwvars
Lin(f) ==
  /\ pend[f][1] # 0 /\ pend[f][2] = 0
  /\ CASE pend[f][1] = 1 -> RequestRead(f)
       [] pend[f][1] = 2 -> RequestWrite(f)
       [] pend[f][1] = 3 -> ReleaseRead(f)
       [] pend[f][1] = 4 -> ReleaseWrite(f)
  /\ pend' = [pend EXCEPT ![f][2] = 1] /\ Silent
GrantStep(f) == (GrantRead(f) \/ GrantWrite(f)) /\ UNCHANGED pend /\ Silent
Ret == /\ IsEvent("ret") /\ Others
       /\ pend[E.f] = <<E.o, 1>>
       /\ E.o = 1 => E.f \in readers
       /\ E.o = 2 => E.f \in writer
       /\ pend' = [pend EXCEPT ![E.f] = <<0, 0>>] /\ UNCHANGED rwvars
End == /\ IsEvent("End") /\ E.b = 1
       /\ \A f \in DOMAIN pend : pend[f][1] = 0
       /\ readers = {} /\ writer = {} /\ wr = {} /\ ww = {}
       /\ UNCHANGED <<rwvars, pend>>
Next == Inv \/ Ret \/ End \/ \E f \in DOMAIN pend : Lin(f) \/ GrantStep(f)
Spec == Init /\ [][Next]_vars
=============================================================================
