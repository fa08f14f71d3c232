------------------------------ MODULE MC_Server ------------------------------
(* A server as it is built: listening sockets in a list under a lock, each run   *)
(* by its loop; a count of everything that uses the server; closing shuts every  *)
(* listed socket down from any thread, the loop then closes it and lets go.      *)
(* Every step is one that Server allows; clients behind a closed socket are lost.*)
EXTENDS Server, FiniteSets, TLC, Functions
CONSTANTS Listeners, MaxFd, Ctxs
VARIABLES refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse,
          lx,      \* listener -> the TLS context it uses
          xref,    \* TLS context -> how often it is held (0: released)
          note     \* listener -> updates on their way to its loop
xvars == <<lx, xref, note>>
vars == <<svars, refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, xvars>>
\* pc[l]: "off", "wait", "serve" (after accepting), "die1" (wants the lock), "die2" (holds it), "drop", "gone"
\* fd[l]: the number of its socket or 0; numbers are reused once closed
Init == /\ SrvInit /\ refs = 1 /\ lock = "free" /\ listed = {} /\ fd = [l \in Listeners |-> 0] /\ shut = {}
        /\ pc = [l \in Listeners |-> "off"] /\ at = [i \in Clients |-> 0]
        /\ closer = "idle" /\ todo = {} /\ owner = TRUE /\ misuse = FALSE
        /\ lx = [l \in Listeners |-> 0] /\ xref = [k \in Ctxs |-> IF k = 0 THEN 1 ELSE 0] /\ note = [l \in Listeners |-> 0]
Rest(S) == UNCHANGED S
InUse == {fd[l] : l \in Listeners} \ {0}
Open == /\ SrvOpen /\ \E f \in [Listeners -> 1 .. MaxFd] :
              /\ \A a, b \in Listeners : a # b => f[a] # f[b]
              /\ fd' = f
        /\ listed' = Listeners /\ refs' = refs + Cardinality(Listeners) /\ pc' = [l \in Listeners |-> "wait"]
        /\ lx' = [l \in Listeners |-> tx] /\ xref' = [xref EXCEPT ![tx] = @ + Cardinality(Listeners)]
        /\ UNCHANGED <<lock, shut, at, closer, todo, owner, misuse, note>>
MAsk(i) == Ask(i) /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, xvars>>
(* the kernel takes it into a queue of a socket that still listens, or refuses *)
Enqueue(i, l) == fd[l] # 0 /\ fd[l] \notin shut /\ Queue(i) /\ at' = [at EXCEPT ![i] = fd[l]]
                 /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, closer, todo, owner, misuse, xvars>>
MRefuse(i) == (\A l \in Listeners : fd[l] = 0 \/ fd[l] \in shut) /\ srv # "new" /\ Refuse(i)
              /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, xvars>>
MLose(i) == at[i] \in shut \cup ((1 .. MaxFd) \ InUse) /\ Lose(i)
            /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, xvars>>
Accept(l, i) == /\ pc[l] = "wait" /\ fd[l] \notin shut /\ at[i] = fd[l] /\ Serve(i)
                /\ refs' = refs + 1 /\ UNCHANGED <<pc, lock, listed, fd, shut, at, closer, todo, owner, misuse, xvars>>
AcceptFails(l) == /\ pc[l] = "wait" /\ fd[l] \in shut /\ pc' = [pc EXCEPT ![l] = "die1"]
                  /\ UNCHANGED <<svars, refs, lock, listed, fd, shut, at, closer, todo, owner, misuse, xvars>>
Die1(l) == /\ pc[l] = "die1" /\ lock = "free" /\ lock' = "loop" /\ pc' = [pc EXCEPT ![l] = "die2"]
           /\ UNCHANGED <<svars, refs, listed, fd, shut, at, closer, todo, owner, misuse, xvars>>
Die2(l) == /\ pc[l] = "die2" /\ lock' = "free" /\ pc' = [pc EXCEPT ![l] = "drop"]
           /\ shut' = shut \ {fd[l]} /\ fd' = [fd EXCEPT ![l] = 0] /\ listed' = listed \ {l}
           /\ UNCHANGED <<svars, refs, at, closer, todo, owner, misuse, xvars>>
(* letting go: the last one frees the server *)
Unref == /\ refs' = refs - 1
         /\ IF refs = 1 THEN /\ misuse' = (misuse \/ freed) /\ freed' = TRUE ELSE UNCHANGED <<freed, misuse>>
(* references to contexts: one dropped (with the last one of the server, its own too), one taken *)
Held(k, more, less) == [c \in Ctxs |-> xref[c] + (IF c \in more THEN 1 ELSE 0) - (IF c \in less THEN 1 ELSE 0) - (IF k /\ refs = 1 /\ c = tx THEN 1 ELSE 0)]
Drop(l) == /\ pc[l] = "drop" /\ pc' = [pc EXCEPT ![l] = "gone"] /\ Unref /\ xref' = Held(TRUE, {}, {lx[l]})
           /\ UNCHANGED <<cl, srv, owned, lock, listed, fd, shut, at, closer, todo, owner, lx, note, tvars>>
MBye(i) == /\ cl[i] = "served" /\ cl' = [cl EXCEPT ![i] = "gone"] /\ Unref
           /\ xref' = Held(TRUE, {}, {})
           /\ UNCHANGED <<srv, owned, lock, listed, fd, shut, pc, at, closer, todo, owner, lx, note, tvars>>
Close1 == /\ closer = "idle" /\ SrvClosing /\ closer' = "want" /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, at, todo, owner, misuse, xvars>>
Close2 == /\ closer = "want" /\ lock = "free" /\ lock' = "closer" /\ closer' = "walk" /\ todo' = listed
          /\ UNCHANGED <<svars, refs, listed, fd, shut, pc, at, owner, misuse, xvars>>
Close3(l) == /\ closer = "walk" /\ l \in todo /\ todo' = todo \ {l}
             /\ misuse' = (misuse \/ freed \/ fd[l] = 0) /\ shut' = shut \cup {fd[l]}
             /\ UNCHANGED <<svars, refs, lock, listed, fd, pc, at, closer, owner, xvars>>
Close4 == /\ closer = "walk" /\ todo = {} /\ lock' = "free" /\ closer' = "done" /\ SrvClosed
          /\ UNCHANGED <<refs, listed, fd, shut, pc, at, todo, owner, misuse, xvars>>
Release == /\ closer = "done" /\ owner /\ owner' = FALSE /\ owned' = FALSE /\ Unref
           /\ xref' = Held(TRUE, {}, {})
           /\ UNCHANGED <<cl, srv, lock, listed, fd, shut, pc, at, closer, todo, lx, note, tvars>>
(* another context: told to every listener's loop; the message keeps the server *)
SetCtx == /\ srv = "open" /\ lock = "free" /\ owner /\ tx + 1 \in Ctxs /\ SetTx(tx + 1)
          /\ xref' = Held(FALSE, {tx + 1}, {tx}) /\ note' = [l \in Listeners |-> note[l] + (IF l \in listed THEN 1 ELSE 0)]
          /\ refs' = refs + Cardinality(listed)
          /\ UNCHANGED <<lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, lx>>
Update(l) == /\ note[l] > 0 /\ lock = "free" /\ note' = [note EXCEPT ![l] = @ - 1] /\ Unref
             /\ IF l \in listed THEN lx' = [lx EXCEPT ![l] = tx] /\ xref' = Held(TRUE, {tx} \ {lx[l]}, {lx[l]} \ {tx})
                                 ELSE lx' = lx /\ xref' = Held(TRUE, {}, {})
             /\ UNCHANGED <<cl, srv, owned, lock, listed, fd, shut, pc, at, closer, todo, owner, tvars>>
Taken == srv = "open" /\ (\A l \in Listeners : note[l] = 0) /\ txs # {tx} /\ TxTaken
         /\ UNCHANGED <<refs, lock, listed, fd, shut, pc, at, closer, todo, owner, misuse, xvars>>
Next == Open \/ SetCtx \/ Taken \/ (\E l \in Listeners : Update(l)) \/ Close1 \/ Close2 \/ Close4 \/ Release
        \/ (\E l \in Listeners : AcceptFails(l) \/ Die1(l) \/ Die2(l) \/ Drop(l) \/ Close3(l) \/ (\E i \in Clients : Enqueue(i, l) \/ Accept(l, i)))
        \/ \E i \in Clients : MAsk(i) \/ MRefuse(i) \/ MLose(i) \/ MBye(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E l \in Listeners : AcceptFails(l) \/ Die1(l) \/ Die2(l) \/ Drop(l))
        /\ WF_vars(Close2 \/ Close4 \/ \E l \in Listeners : Close3(l)) /\ WF_vars(Release) /\ WF_vars(\E l \in Listeners : Update(l)) /\ WF_vars(\E i \in Clients : MBye(i))
FreedOnce == ~misuse
CountIsUses == refs = (IF owned THEN 1 ELSE 0) + Cardinality({l \in Listeners : pc[l] \notin {"off", "gone"}})
                    + FoldFunction(LAMBDA a, b : a + b, 0, note) + Cardinality({i \in Clients : cl[i] = "served"})
FreedWhenUnused == freed <=> refs = 0
ListedIsOpen == lock = "free" => \A l \in listed : fd[l] # 0
NobodyLostEarly == srv \in {"new", "open"} => \A i \in Clients : cl[i] \notin {"lost", "refused"}
CtxAllowed == \A l \in Listeners : pc[l] = "wait" => lx[l] \in txs /\ xref[lx[l]] > 0
CtxCounted == \A k \in Ctxs : xref[k] = (IF k = tx /\ ~freed THEN 1 ELSE 0) + Cardinality({l \in Listeners : lx[l] = k /\ pc[l] \notin {"off", "gone"}})
AfterFree == freed => \A i \in Clients : cl[i] # "served"
EndsFreed == srv = "closing" ~> freed
Obeys == [][\/ SrvOpen \/ SrvClosing \/ SrvClosed \/ UNCHANGED svars
            \/ \E i \in Clients : Ask(i) \/ Refuse(i) \/ Queue(i) \/ Serve(i) \/ Lose(i) \/ Bye(i)
            \/ (\E i \in Clients : cl[i] = "served" /\ cl' = [cl EXCEPT ![i] = "gone"] /\ ~freed /\ freed' /\ UNCHANGED <<srv, owned, tvars>>)
            \/ (\E k \in Ctxs : SetTx(k)) \/ TxTaken
            \/ SrvFree \/ (SrvRelease \/ (owned /\ owned' = FALSE /\ freed' /\ ~freed /\ UNCHANGED <<cl, srv, tvars>>))]_svars
=============================================================================
