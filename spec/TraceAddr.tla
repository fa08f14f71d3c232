------------------------------- MODULE TraceAddr -------------------------------
(* parse s want fam b port gotport len text, format fam b room ok over len text,  *)
(* cmp a (addresses) and matrices sock ip lt eq h1 h2, mask a m r q, unix, End    *)
EXTENDS Addr, TraceBase
vars == <<tid, pos>>
Init == TraceInit
ParseOk == LET p == Parse(E.s, E.want) IN
  IF p.fam # 0
  THEN /\ E.fam = p.fam /\ E.b = p.b /\ E.gotport = E.port /\ E.len = SockLen(p.fam) /\ E.text = Text(p.fam, p.b)
  ELSE Unspecified(E.s) \/ E.fam = 0
FormatOk == LET t == Text(E.fam, E.b) IN
  /\ E.over = 0 /\ E.len = SockLen(E.fam)
  /\ IF E.room > Len(t) THEN E.ok = 1 /\ E.text = t ELSE E.ok = 0
CmpOk == LET D == DOMAIN E.a IN
  /\ TotalOrder(E.a, E.sock) /\ TotalOrder(E.a, E.ip)
  /\ \A i, j \in D : /\ (E.lt[i][j] = 1) = (E.ip[i][j] = -1)
                     /\ (E.eq[i][j] = 1) = (E.a[i] = E.a[j])
                     /\ E.a[i] = E.a[j] => E.h1[i][j] = 1 /\ E.h2[i][j] = 1
MaskOk == /\ \A i \in DOMAIN E.a : E.r[i] = AndByte(E.a[i], E.m[i])
          /\ E.q = E.r /\ E.same = 1 /\ E.fams = 1
Next == \/ IsEvent("parse") /\ TRUE = ParseOk
        \/ IsEvent("format") /\ TRUE = FormatOk
        \/ IsEvent("cmp") /\ TRUE = CmpOk
        \/ IsEvent("mask") /\ TRUE = MaskOk
        \/ IsEvent("unix") /\ E.ok = 1 /\ (E.took = 1) = (E.len < E.room)
        \/ IsEvent("End") /\ E.live = 0
Spec == Init /\ [][Next]_vars
=============================================================================
