-------------------------------- MODULE MC_Addr --------------------------------
(* The canonical text of every address over a few group values parses back to    *)
(* it and to no other address, has no capitals and no needless zeros.            *)
EXTENDS Addr
CONSTANTS Vals, Octets
VARIABLE a
GroupBytes(g) == Flat([i \in 1 .. 8 |-> <<g[i] \div 256, g[i] % 256>>])
Init == \/ \E g \in [1 .. 8 -> Vals] : a = [fam |-> 6, b |-> GroupBytes(g)]
        \/ \E q \in [1 .. 4 -> Octets] : a = [fam |-> 4, b |-> q]
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
RoundTrip == Parse(Text(a.fam, a.b), 0) = a
OwnFamilyOnly == ~(a.fam = 6 /\ Mapped(a.b)) => Parse(Text(a.fam, a.b), 10 - a.fam).fam = 0
NoCapitals == LET t == Text(a.fam, a.b) IN \A i \in 1 .. Len(t) : ~(Has(Ch(t, i), "ABCDEF"))
=============================================================================
