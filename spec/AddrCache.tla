----------------------------- MODULE AddrCache -----------------------------
(* Host lookups through a cache.  A key is a host name with an address family.                               *)
(* qs: resolver queries under way: query -> key; begun: key -> when the last query was asked for             *)
(* looks: key -> times of the lookups since, or since the key was forgotten                                 *)
(* st: key -> sequence of <<time, answer, failed>>, what the cache holds after each completed query since it last     *)
(*   forgot the key (0: failure); errs: key -> failures in a row                                             *)
(* ls: lookups under way: lookup -> [key, sel, base, known]; base: states before it are out of date;          *)
(*   known: something was settled when it was made, and nothing was forgotten since                          *)
(* held: answers users hold: lookup -> address; got: addresses the resolver returned: address -> key; gone    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Fresh, MaxErr
VARIABLES qs, begun, st, errs, ls, held, got, gone, looks
avars == <<qs, begun, st, errs, ls, held, got, gone, looks>>
AInit == qs = <<>> /\ begun = <<>> /\ st = <<>> /\ errs = <<>> /\ ls = <<>> /\ held = <<>> /\ got = <<>> /\ gone = {} /\ looks = <<>>
PutA(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
DelA(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
GetA(m, x, d) == IF x \in DOMAIN m THEN m[x] ELSE d
Max2(a, b) == IF a > b THEN a ELSE b
States(k) == GetA(st, k, <<>>)
(* a query for a key is asked for by a lookup, only when nothing fresh is known and none is under way *)
Askers(k) == {t \in GetA(looks, k, {}) : k \in DOMAIN begun => t - begun[k] >= Fresh}
QueryBegin(qid, k, now, strict) ==
  /\ qid \notin DOMAIN qs
  /\ strict => Askers(k) # {}
  /\ qs' = PutA(qs, qid, k)
  /\ LET a == IF Askers(k) = {} THEN now ELSE CHOOSE t \in Askers(k) : \A u \in Askers(k) : t <= u
     IN begun' = PutA(begun, k, a) /\ looks' = PutA(looks, k, {t \in GetA(looks, k, {}) : t > a})
  /\ UNCHANGED <<st, errs, ls, held, got, gone>>
QueryEnd(qid, id, now) ==
  /\ qid \in DOMAIN qs /\ (id # 0 => id \notin DOMAIN got)
  /\ LET k == qs[qid]
         s == States(k)
         cur == IF s = <<>> THEN 0 ELSE s[Len(s)][2]
         e == IF s = <<>> \/ id # 0 THEN 0 ELSE GetA(errs, k, 0) + 1
         new == IF id # 0 THEN id ELSE IF e >= MaxErr THEN 0 ELSE cur
     IN /\ st' = PutA(st, k, Append(s, <<now, new, id = 0>>))
        /\ errs' = PutA(errs, k, e)
        /\ got' = (IF id # 0 THEN PutA(got, id, k) ELSE got)
  /\ qs' = DelA(qs, qid)
  /\ UNCHANGED <<begun, ls, held, gone, looks>>
(* states that were settled before the lookup was made, but the last *)
Lookup(l, k, sel, now) ==
  /\ l \notin DOMAIN ls
  /\ LET s == States(k)
         old == {i \in 1..Len(s) : s[i][1] < now}
     IN ls' = PutA(ls, l, [key |-> k, sel |-> sel, at |-> now, known |-> old # {}, base |-> IF old = {} THEN 1 ELSE CHOOSE i \in old : \A j \in old : j <= i])
  /\ looks' = (IF sel = 0-2 /\ k \notin DOMAIN begun THEN looks ELSE PutA(looks, k, GetA(looks, k, {}) \cup {now}))
  /\ UNCHANGED <<qs, begun, st, errs, held, got, gone>>
Right(l, id, strict) ==
  LET k == ls[l].key
      s == States(k)
  IN IF strict THEN \E i \in ls[l].base..Len(s) : s[i][2] = id
     ELSE IF id # 0 THEN id \in DOMAIN got /\ got[id] = k ELSE TRUE
Answer(l, id, sel, strict, excused) ==
  /\ l \in DOMAIN ls /\ (ls[l].sel = sel \/ sel = 0-2)
  /\ Right(l, id, strict) \/ (excused /\ id = 0)
  /\ id \notin gone
  /\ held' = (IF id # 0 THEN PutA(held, l, id) ELSE held)
  /\ ls' = DelA(ls, l)
  /\ UNCHANGED <<qs, begun, st, errs, got, gone, looks>>
(* looking into the cache only: nothing known is no failure, but what is known and did not fail is found *)
MayMiss(l) == \/ ~ls[l].known
              \/ LET s == States(ls[l].key) IN \E i \in 1..Len(s) : i >= ls[l].base /\ s[i][3]
Peek(l, id, strict) ==
  /\ l \in DOMAIN ls /\ ((id = 0 /\ (strict => MayMiss(l))) \/ (id # 0 /\ Right(l, id, strict) /\ id \notin gone))
  /\ held' = (IF id # 0 THEN PutA(held, l, id) ELSE held)
  /\ ls' = DelA(ls, l)
  /\ UNCHANGED <<qs, begun, st, errs, got, gone, looks>>
Release(l) == l \in DOMAIN held /\ held' = DelA(held, l) /\ UNCHANGED <<qs, begun, st, errs, ls, got, gone, looks>>
Free(id) == /\ id \in DOMAIN got /\ id \notin gone /\ (\A l \in DOMAIN held : held[l] # id)
            /\ gone' = gone \cup {id} /\ UNCHANGED <<qs, begun, st, errs, ls, held, got, looks>>
(* the cache forgets the keys it knows *)
Forget == /\ st' = <<>> /\ errs' = <<>> /\ begun' = [k \in {qs[x] : x \in DOMAIN qs} |-> begun[k]]
          /\ ls' = [l \in DOMAIN ls |-> [ls[l] EXCEPT !.known = FALSE]]
          /\ looks' = [k \in {ls[l].key : l \in DOMAIN ls} |-> {ls[l].at : l \in {m \in DOMAIN ls : ls[m].key = k}}] /\ UNCHANGED <<qs, held, got, gone>>
AllAnswered == ls = <<>> /\ qs = <<>>
AllFreed == gone = DOMAIN got
=============================================================================
