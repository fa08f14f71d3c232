----------------------------- MODULE TraceChan -----------------------------
(* codes: 1 send (inv a = data; ret b = result), 2 receive (ret a = data, b = result), 3 receive reporting  *)
(* itself, 4 report (a = value; o of the sender is found by data: f = reporting op, b = data), 5 close.     *)
(* "ref": a = references the channel reports, b = 1 if its memory is live.                                 *)
EXTENDS Chan, TraceBase
VARIABLES pend, datas, refs
vars == <<tid, pos, cvars, pend, datas, refs>>
Init == TraceInit /\ CInit /\ pend = [f \in 1..Cfg.n |-> <<0, 0, 0>>] /\ datas = <<>> /\ refs = 1
Inv == /\ IsEvent("inv") /\ pend[E.f][1] = 0
       /\ pend' = [pend EXCEPT ![E.f] = <<E.o, E.a, 0>>]
       /\ datas' = IF E.o = 1 THEN Put(datas, E.a, E.f) ELSE datas
       /\ UNCHANGED <<cvars, refs>>
Lin(f) ==
  LET p == pend[f] IN
  /\ p[1] # 0 /\ p[3] = 0 /\ Silent
  /\ \/ p[1] = 1 /\ Send(f, p[2])
     \/ p[1] = 2 /\ Recv(f, FALSE)
     \/ p[1] = 3 /\ Recv(f, TRUE)
     \/ p[1] = 5 /\ Close
  /\ pend' = [pend EXCEPT ![f][3] = 1] /\ UNCHANGED <<datas, refs>>
(* the report takes effect when it is called: single selector *)
Report4 == /\ IsEvent("tell") /\ Tell(datas[E.b], E.a) /\ UNCHANGED <<pend, datas, refs>>
Ret == /\ IsEvent("ret")
       /\ LET p == pend[E.f] IN
          /\ p[1] = E.o /\ p[3] = 1
          /\ E.o \in {1, 2, 3} => /\ E.f \in DOMAIN out
                                  /\ out[E.f][1] = E.b
                                  /\ (E.o \in {2, 3} /\ E.b = 0) => out[E.f][2] = E.a
       /\ out' = Del(out, {E.f})
       /\ pend' = [pend EXCEPT ![E.f] = <<0, 0, 0>>] /\ UNCHANGED <<snd, rcv, held, closed, datas, refs>>
AddRef == IsEvent("addref") /\ refs' = refs + 1 /\ UNCHANGED <<cvars, pend, datas>>
DropRef == IsEvent("dropref") /\ refs' = refs - 1 /\ UNCHANGED <<cvars, pend, datas>>
Ref == IsEvent("ref") /\ E.b = (IF refs > 0 THEN 1 ELSE 0) /\ (refs > 0 => E.a = refs) /\ UNCHANGED <<cvars, pend, datas, refs>>
End == /\ IsEvent("End")
       /\ \A f \in DOMAIN pend : pend[f][1] # 0 => pend[f][3] = 1 /\ (f \in DOMAIN snd \/ f \in rcv)
       /\ held = {}
       /\ UNCHANGED <<cvars, pend, datas, refs>>
Next == Inv \/ Ret \/ Report4 \/ AddRef \/ DropRef \/ Ref \/ End \/ \E f \in DOMAIN pend : Lin(f)
Spec == Init /\ [][Next]_vars
=============================================================================
