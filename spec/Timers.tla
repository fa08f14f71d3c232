------------------------------- MODULE Timers -------------------------------
(* Timers of event loops.  tm: pending timers: id -> record                  *)
(*   sel   loop it was set for, -1: the library chooses one                  *)
(*   local set on the loop's own thread (lo..hi: loop clock at which it is   *)
(*         due; a timer set by another thread becomes due after lo)          *)
(*   from, ms   steady time at which it was set, and its delay               *)
(*   old   a pass of its loop ended since it was set                         *)
(*   st    how often the system clock was stepped backwards since it was set *)
(* tick: loop -> loop clock at the end of its last pass                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Slack,     \* clock granularity of the loops (steady time)
          Pass       \* a loop makes a pass at least this often
VARIABLES tm, tick, used
tvars == <<tm, tick, used>>
TInit == tm = <<>> /\ tick = <<>> /\ used = {}
PutT(m, x, v) == [y \in (DOMAIN m) \cup {x} |-> IF y = x THEN v ELSE m[y]]
DelT(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
Set(t, sel, local, lo, hi, now, ms) ==
  /\ t \notin used
  /\ used' = used \cup {t}
  /\ tm' = PutT(tm, t, [sel |-> sel, local |-> local, lo |-> lo, hi |-> hi, from |-> now, ms |-> ms, old |-> FALSE, st |-> 0])
  /\ UNCHANGED tick
(* the setter's call has returned: the clock it was set by is now known from above *)
SetDone(t, hi) == IF t \in DOMAIN tm THEN tm' = [tm EXCEPT ![t].hi = hi] /\ UNCHANGED <<tick, used>> ELSE UNCHANGED tvars
(* strict: the loop's clock has only moved forward *)
Fire(t, sel, clock, now, strict) ==
  /\ t \in DOMAIN tm
  /\ tm[t].sel \in {sel, 0-1}
  /\ now >= tm[t].from + tm[t].ms - Slack
  /\ now <= tm[t].from + tm[t].ms + 2 * Slack + tm[t].st * Pass
  /\ strict => clock >= tm[t].lo
  /\ (strict /\ tm[t].local) => \A u \in DOMAIN tm : (tm[u].local /\ tm[u].sel = sel /\ u # t) => tm[u].hi >= tm[t].lo
  /\ tm' = DelT(tm, t) /\ UNCHANGED <<tick, used>>
(* end of a pass: everything that was due when the pass began has fired *)
Tick(sel, clock, strict) ==
  /\ (strict /\ sel \in DOMAIN tick) => \A u \in DOMAIN tm : (tm[u].local /\ tm[u].sel = sel /\ tm[u].old) => tm[u].hi > tick[sel]
  /\ tick' = PutT(tick, sel, clock)
  /\ tm' = [u \in DOMAIN tm |-> IF tm[u].sel = sel THEN [tm[u] EXCEPT !.old = TRUE] ELSE tm[u]]
  /\ UNCHANGED used
(* the system clock is stepped backwards: a timer may lose the time since the clock was last looked at, not the step *)
Step == tm' = [u \in DOMAIN tm |-> [tm[u] EXCEPT !.st = @ + 1]] /\ UNCHANGED <<tick, used>>
(* weeks ahead: not due within any run that is watched *)
Far == 1000000000
AllFired == \A u \in DOMAIN tm : tm[u].ms >= Far
=============================================================================
