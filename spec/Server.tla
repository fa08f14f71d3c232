-------------------------------- MODULE Server --------------------------------
(* A server: clients arrive, each accepted one is handed out once; it is closed,  *)
(* released by its owner, and freed when nothing uses it any more.                *)
EXTENDS Integers
CONSTANTS Clients
VARIABLES cl,      \* client -> none, asking, queued, lost, refused, served, gone
          srv,     \* new, open, closing, closed
          owned,   \* the owner has not released it
          freed,
          tx,      \* the TLS context (certificate) set last
          txs,     \* contexts a listener may still be using
          via      \* client -> contexts it may have been accepted with
svars == <<cl, srv, owned, freed, tx, txs, via>>
tvars == <<tx, txs, via>>
SrvInit == cl = [i \in Clients |-> "none"] /\ srv = "new" /\ owned = TRUE /\ freed = FALSE
           /\ tx = 0 /\ txs = {0} /\ via = [i \in Clients |-> {}]
SrvOpen == srv = "new" /\ srv' = "open" /\ UNCHANGED <<cl, owned, freed, tvars>>
(* late: the attempt began after the server was closed *)
Ask(i) == cl[i] = "none" /\ cl' = [cl EXCEPT ![i] = IF srv = "closed" THEN "late" ELSE "asking"] /\ UNCHANGED <<srv, owned, freed, tvars>>
Refuse(i) == cl[i] \in {"late", "asking"} /\ (cl[i] = "asking" => srv \in {"closing", "closed"})
             /\ cl' = [cl EXCEPT ![i] = "refused"] /\ UNCHANGED <<srv, owned, freed, tvars>>
(* the kernel completed it; it may be handed out before its own side knows *)
Queue(i) == cl[i] = "asking" /\ cl' = [cl EXCEPT ![i] = "queued"] /\ UNCHANGED <<srv, owned, freed, tvars>>
Serve(i) == cl[i] = "queued" /\ ~freed /\ cl' = [cl EXCEPT ![i] = "served"] /\ via' = [via EXCEPT ![i] = txs] /\ UNCHANGED <<srv, owned, freed, tx, txs>>
Lose(i) == cl[i] = "queued" /\ srv \in {"closing", "closed"} /\ cl' = [cl EXCEPT ![i] = "lost"] /\ UNCHANGED <<srv, owned, freed, tvars>>
Bye(i) == cl[i] = "served" /\ cl' = [cl EXCEPT ![i] = "gone"] /\ UNCHANGED <<srv, owned, freed, tvars>>
SrvClosing == srv = "open" /\ srv' = "closing" /\ UNCHANGED <<cl, owned, freed, tvars>>
SrvClosed == srv = "closing" /\ srv' = "closed" /\ UNCHANGED <<cl, owned, freed, tvars>>
SrvRelease == owned /\ owned' = FALSE /\ UNCHANGED <<cl, srv, freed, tvars>>
SrvFree == ~freed /\ ~owned /\ srv \in {"closing", "closed"} /\ (\A i \in Clients : cl[i] # "served")
           /\ freed' = TRUE /\ UNCHANGED <<cl, srv, owned, tvars>>
(* another certificate: listeners take it up in their own time *)
SetTx(k) == tx' = k /\ txs' = txs \cup {k} /\ UNCHANGED <<cl, srv, owned, freed, via>>
TxTaken == txs' = {tx} /\ UNCHANGED <<cl, srv, owned, freed, tx, via>>
(* everybody who came has been handed out *)
Settled == srv = "open" /\ \A i \in Clients : cl[i] \notin {"asking", "queued"}
=============================================================================
