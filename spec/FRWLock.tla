------------------------------ MODULE FRWLock ------------------------------
(* Abstract fiber reader-writer lock.                                         *)
EXTENDS Naturals, FiniteSets
VARIABLES readers, writer, wr, ww, elig
  \* readers, writer: holders (writer is a set of at most one fiber)
  \* wr, ww: waiting readers and writers; elig: waiting readers that were waiting
  \* when the last writer left (they may pass writers that wait)
rwvars == <<readers, writer, wr, ww, elig>>
RWInit == readers = {} /\ writer = {} /\ wr = {} /\ ww = {} /\ elig = {}

RequestRead(f) ==
  /\ IF writer = {} /\ ww = {}
       THEN readers' = readers \cup {f} /\ UNCHANGED wr
       ELSE wr' = wr \cup {f} /\ UNCHANGED readers
  /\ UNCHANGED <<writer, ww, elig>>
RequestWrite(f) ==
  /\ IF writer = {} /\ readers = {} 
       THEN writer' = {f} /\ UNCHANGED ww
       ELSE ww' = ww \cup {f} /\ UNCHANGED writer
  /\ UNCHANGED <<readers, wr, elig>>
GrantRead(f) ==
  /\ f \in wr /\ writer = {} /\ (ww = {} \/ f \in elig)
  /\ wr' = wr \ {f} /\ readers' = readers \cup {f} /\ elig' = elig \ {f}
  /\ UNCHANGED <<writer, ww>>
GrantWrite(f) ==
  /\ f \in ww /\ writer = {} /\ readers = {}
  /\ ww' = ww \ {f} /\ writer' = {f}
  /\ UNCHANGED <<readers, wr, elig>>
ReleaseRead(f) == f \in readers /\ readers' = readers \ {f} /\ UNCHANGED <<writer, wr, ww, elig>>
ReleaseWrite(f) == f \in writer /\ writer' = {} /\ elig' = wr /\ UNCHANGED <<readers, wr, ww>>
=============================================================================
