-------------------------------- MODULE Conn --------------------------------
(* Connections as pairs of ends: 0 and 1, 2 and 3, ...                          *)
EXTENDS Integers
CONSTANT Ends
Peer(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
=============================================================================
