---------------------------- MODULE MC_AddrCache ----------------------------
(* The implementation's protocol: a tree of nodes that are pending (with a queue of lookups) or listed (with  *)
(* the current and the last good address), jobs for the resolver, reference counts.  It refines AddrCache.    *)
EXTENDS AddrCache, TLC
CONSTANTS Keys, MaxL, MaxQ, MaxT, Fails
VARIABLES now, node,   \* key -> record or "none"
          jobs,        \* resolver jobs: query -> [key, node, first, phase, id]
          refs,        \* address -> references
          out,         \* answers on their way: lookup -> address
          nl, nq, flushed
ivars == <<avars, now, node, jobs, refs, out, nl, nq, flushed>>
None == [st |-> "none", addr |-> 0, last |-> 0, err |-> 0, q |-> {}, ver |-> 0]
MInit == AInit /\ now = 1 /\ node = [k \in Keys |-> None] /\ jobs = <<>> /\ refs = <<>> /\ out = <<>> /\ nl = 0 /\ nq = 0 /\ flushed = 0
Ref(r, id, n) == IF id = 0 THEN r ELSE [r EXCEPT ![id] = @ + n]
Cached(k) == IF node[k].addr # 0 THEN node[k].addr ELSE node[k].last
(* a lookup: an answer at once from a listed node (perhaps asking for a refresh), or into the queue *)
DoLookup(k) ==
  /\ nl < MaxL /\ nl' = nl + 1 /\ Lookup(nl', k, 0, now)
  /\ CASE node[k].st = "none" ->
            /\ nq < MaxQ /\ nq' = nq + 1
            /\ node' = [node EXCEPT ![k] = [None EXCEPT !.st = "pend", !.q = {nl'}, !.ver = now]]
            /\ jobs' = PutA(jobs, nq', [key |-> k, first |-> TRUE, ph |-> "new", id |-> 0, q |-> {}]) /\ UNCHANGED <<refs, out>>
       [] node[k].st = "pend" -> node' = [node EXCEPT ![k].q = @ \cup {nl'}] /\ UNCHANGED <<jobs, nq, refs, out>>
       [] node[k].st = "list" ->
            /\ out' = PutA(out, nl', Cached(k)) /\ refs' = Ref(refs, Cached(k), 1)
            /\ IF now - node[k].ver > Fresh
               THEN nq < MaxQ /\ nq' = nq + 1 /\ node' = [node EXCEPT ![k].ver = now]
                    /\ jobs' = PutA(jobs, nq', [key |-> k, first |-> FALSE, ph |-> "new", id |-> 0, q |-> {}])
               ELSE UNCHANGED <<node, jobs, nq>>
  /\ UNCHANGED <<now, flushed>>
DoBegin(x) == x \in DOMAIN jobs /\ jobs[x].ph = "new" /\ QueryBegin(x, jobs[x].key, now, TRUE)
              /\ jobs' = [jobs EXCEPT ![x].ph = "ask"] /\ UNCHANGED <<now, node, refs, out, nl, nq, flushed>>
DoEnd(x) == /\ x \in DOMAIN jobs /\ jobs[x].ph = "ask"
            /\ \E id \in {x} \cup (IF Fails THEN {0} ELSE {}) :
               /\ QueryEnd(x, id, now) /\ jobs' = [jobs EXCEPT ![x].ph = "res", ![x].id = id]
               /\ refs' = (IF id # 0 THEN PutA(refs, id, 1) ELSE refs)
            /\ UNCHANGED <<now, node, out, nl, nq, flushed>>
(* the result goes into the cache; for a first query the queue is answered with a reference of its own *)
DoStore(x) ==
  LET k == jobs[x].key
      id == jobs[x].id
      n == node[k]
  IN
  /\ x \in DOMAIN jobs /\ jobs[x].ph = "res"
  /\ IF jobs[x].first
     THEN /\ node' = [node EXCEPT ![k].st = "list", ![k].addr = id, ![k].last = id, ![k].q = {}]
          /\ refs' = Ref(refs, id, 2) /\ jobs' = [jobs EXCEPT ![x].ph = "tell", ![x].q = n.q]
     ELSE /\ jobs' = DelA(jobs, x)
          /\ IF n.st = "pend" THEN refs' = Ref(refs, id, 0-1) /\ UNCHANGED node
             ELSE LET e == IF id # 0 THEN 0 ELSE n.err + 1
                      drop == id # 0 \/ e >= MaxErr
                      r1 == Ref(refs, n.addr, 0-1)
                      r2 == IF drop THEN Ref(r1, n.last, 0-1) ELSE r1
                      r3 == Ref(r2, id, 1)
                  IN /\ refs' = r3
                     /\ node' = [node EXCEPT ![k] = [@ EXCEPT !.st = "list", !.addr = id, !.err = e, !.last = (IF id # 0 THEN id ELSE IF drop THEN 0 ELSE n.last),
                                                              !.ver = (IF n.st = "none" THEN now ELSE n.ver)]]
  /\ UNCHANGED <<avars, now, out, nl, nq, flushed>>
DoTell(x) == /\ x \in DOMAIN jobs /\ jobs[x].ph = "tell"
             /\ IF jobs[x].q # {} THEN LET l == CHOOSE y \in jobs[x].q : TRUE IN
                     /\ out' = PutA(out, l, jobs[x].id) /\ refs' = Ref(refs, jobs[x].id, 1) /\ jobs' = [jobs EXCEPT ![x].q = @ \ {l}]
                ELSE /\ jobs' = DelA(jobs, x) /\ refs' = Ref(refs, jobs[x].id, 0-1) /\ UNCHANGED out
             /\ UNCHANGED <<avars, now, node, nl, nq, flushed>>
DoAnswer(l) == /\ l \in DOMAIN out /\ Answer(l, out[l], 0, TRUE, FALSE) /\ out' = DelA(out, l)
               /\ UNCHANGED <<now, node, jobs, refs, nl, nq, flushed>>
DoRelease(l) == Release(l) /\ refs' = Ref(refs, held[l], 0-1) /\ UNCHANGED <<now, node, jobs, out, nl, nq, flushed>>
DoFree(id) == id \in DOMAIN refs /\ refs[id] = 0 /\ Free(id) /\ UNCHANGED <<now, node, jobs, refs, out, nl, nq, flushed>>
Quiet == DOMAIN jobs = {} /\ DOMAIN out = {}
(* time passes when nothing is runnable: queries under way may take long *)
Tick == /\ now < MaxT /\ (\A x \in DOMAIN jobs : jobs[x].ph = "ask") /\ DOMAIN out = {}
        /\ now' = now + 1 /\ UNCHANGED <<avars, node, jobs, refs, out, nl, nq, flushed>>
DoFlush == /\ flushed = 0 /\ Quiet /\ Forget
           /\ refs' = [i \in DOMAIN refs |-> refs[i] - Cardinality({k \in Keys : node[k].addr = i}) - Cardinality({k \in Keys : node[k].last = i})]
           /\ node' = [k \in Keys |-> None] /\ flushed' = 1 /\ UNCHANGED <<now, jobs, out, nl, nq>>
Next == \/ \E k \in Keys : DoLookup(k)
        \/ \E x \in 1..MaxQ : DoBegin(x) \/ DoEnd(x) \/ DoStore(x) \/ DoTell(x)
        \/ \E l \in 1..MaxL : DoAnswer(l) \/ DoRelease(l)
        \/ \E i \in 1..MaxQ : DoFree(i)
        \/ Tick \/ DoFlush
Spec == MInit /\ [][Next]_ivars /\ WF_ivars(Next)
AnswerAllowed == \A l \in DOMAIN out : l \in DOMAIN ls /\ Right(l, out[l], TRUE) /\ out[l] \notin gone
BeginAllowed == \A x \in DOMAIN jobs : jobs[x].ph = "new" => Askers(jobs[x].key) # {}
Counted == \A i \in DOMAIN refs : /\ refs[i] >= 0
   /\ ((\E l \in DOMAIN held : held[l] = i) \/ (\E l \in DOMAIN out : out[l] = i) \/ (\E k \in Keys : i \in {node[k].addr, node[k].last})) => refs[i] > 0
EndFreed == [](\A i \in 1..MaxQ : (i \in DOMAIN refs /\ refs[i] = 0) => <>(i \in gone))
=============================================================================
