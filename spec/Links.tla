-------------------------------- MODULE Links --------------------------------
(* Linked lists of items that carry their links: a ring with a head is a         *)
(* sequence, a forward list a stack one may take things out of.                  *)
EXTENDS Integers, Sequences
VARIABLES ring,   \* head -> its items in order
          fwd     \* head -> its items in order
lvars == <<ring, fwd>>
In(s, x) == \E i \in 1..Len(s) : s[i] = x
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, x) == SubSeq(s, 1, At(s, x) - 1) \o SubSeq(s, At(s, x) + 1, Len(s))
Back(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Somewhere(f, x) == \E h \in DOMAIN f : In(f[h], x)
Where(f, x) == CHOOSE h \in DOMAIN f : In(f[h], x)
Append_(h, x) == /\ ~Somewhere(ring, x) /\ ring' = [ring EXCEPT ![h] = Append(@, x)] /\ UNCHANGED fwd
(* before an item *)
Before(y, x) == /\ ~Somewhere(ring, x) /\ Somewhere(ring, y) /\ UNCHANGED fwd
                /\ LET h == Where(ring, y) i == At(ring[h], y)
                   IN ring' = [ring EXCEPT ![h] = SubSeq(@, 1, i - 1) \o <<x>> \o SubSeq(@, i, Len(@))]
Remove(x) == /\ Somewhere(ring, x) /\ UNCHANGED fwd
             /\ LET h == Where(ring, x) IN ring' = [ring EXCEPT ![h] = Without(@, x)]
Clear(h) == ring' = [ring EXCEPT ![h] = <<>>] /\ UNCHANGED fwd
Push(h, x) == /\ ~Somewhere(fwd, x) /\ fwd' = [fwd EXCEPT ![h] = <<x>> \o @] /\ UNCHANGED ring
(* tells whether it was there *)
Pull(h, x, was) == /\ was = In(fwd[h], x) /\ fwd' = [fwd EXCEPT ![h] = IF was THEN Without(@, x) ELSE @] /\ UNCHANGED ring
(* what walking over them shows *)
Shows(h, there, back, empty, first, last) ==
  /\ there = ring[h] /\ back = Back(ring[h]) /\ empty = (ring[h] = <<>>)
  /\ first = (IF ring[h] = <<>> THEN 0 ELSE ring[h][1]) /\ last = (IF ring[h] = <<>> THEN 0 ELSE ring[h][Len(ring[h])])
  /\ UNCHANGED lvars
ShowsF(h, there, empty) == there = fwd[h] /\ empty = (fwd[h] = <<>>) /\ UNCHANGED lvars
=============================================================================
