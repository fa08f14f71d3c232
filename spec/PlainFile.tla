------------------------------ MODULE PlainFile -------------------------------
(* The blocking file calls: names, files behind them, handles with a mode and a position.                      *)
(* Name 3 is a symbolic link to name 0, name 4 a directory.  "~" stands for the byte 0.                         *)
EXTENDS ByteStr
CONSTANTS Names, Handles
VARIABLES ino,   \* name -> file or 0
          data,  \* file -> bytes (a sequence, file i at i)
          mt,    \* file -> time of its last change: as set, Recent, or Whatever
          hd     \* handle -> [f, m, pos] or Closed
pvars == <<ino, data, mt, hd>>
Recent == -1
Whatever == -2
Closed == [f |-> 0, m |-> "", pos |-> 0]
PInit == ino = [n \in Names |-> 0] /\ data = <<>> /\ mt = <<>> /\ hd = [h \in Handles |-> Closed]
Link == 3
Dir == 4
Target(n) == IF n = Link THEN 0 ELSE n
Creates(m) == m \in {"a", "m", "w", "wr"}
Empties(m) == m \in {"w", "wr"}
Reads(m) == m \in {"r", "rw", "wr"}
Writes(m) == m # "r"
CanOpen(n, m, nf) == n # Dir /\ ~(nf /\ n = Link) /\ (ino[Target(n)] # 0 \/ Creates(m))
Open(h, n, m, nf) ==
  /\ hd[h] = Closed /\ CanOpen(n, m, nf)
  /\ LET t == Target(n)
         old == ino[t]
         f == IF old # 0 THEN old ELSE Len(data) + 1
     IN /\ ino' = [ino EXCEPT ![t] = f]
        /\ data' = (IF old = 0 THEN Append(data, "") ELSE IF Empties(m) THEN [data EXCEPT ![f] = ""] ELSE data)
        /\ mt' = (IF old = 0 THEN Append(mt, Recent) ELSE IF Empties(m) THEN [mt EXCEPT ![f] = IF data[f] = "" THEN Whatever ELSE Recent] ELSE mt)
        /\ hd' = [hd EXCEPT ![h] = [f |-> f, m |-> m, pos |-> 0]]
Close(h) == hd[h] # Closed /\ hd' = [hd EXCEPT ![h] = Closed] /\ UNCHANGED <<ino, data, mt>>
Rest(h) == LET s == data[hd[h].f] IN IF hd[h].pos >= Len(s) THEN "" ELSE From(s, hd[h].pos)
Move(h, n) == hd' = [hd EXCEPT ![h].pos = @ + n] /\ UNCHANGED <<ino, data, mt>>
(* may give less than there is, but not nothing *)
Read(h, l, r, d) ==
  /\ hd[h] # Closed
  /\ IF ~Reads(hd[h].m) THEN r = -1 /\ UNCHANGED pvars
     ELSE LET there == Min2(l, Len(Rest(h)))
          IN r >= 0 /\ r <= there /\ (there > 0 => r > 0) /\ d = Take(Rest(h), r) /\ Move(h, r)
(* all or a failure *)
ReadAll(h, l, ok, d) ==
  /\ hd[h] # Closed
  /\ IF ~Reads(hd[h].m) THEN ok = (l = 0) /\ d = "" /\ UNCHANGED pvars
     ELSE LET there == Min2(l, Len(Rest(h)))
          IN ok = (there = l) /\ d = Take(Rest(h), there) /\ Move(h, there)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "~" \o Zeros(n - 1)
Put(s, at, d) == LET t == s \o Zeros(at - Len(s))
                 IN Take(t, at) \o d \o (IF at + Len(d) < Len(t) THEN From(t, at + Len(d)) ELSE "")
Write(h, l, r, d) ==
  /\ hd[h] # Closed
  /\ IF ~Writes(hd[h].m) THEN r = -1 /\ UNCHANGED pvars
     ELSE /\ r = l
          /\ IF l = 0 THEN UNCHANGED pvars
             ELSE LET f == hd[h].f
                      at == IF hd[h].m = "a" THEN Len(data[f]) ELSE hd[h].pos
                  IN /\ data' = [data EXCEPT ![f] = Put(@, at, d)] /\ mt' = [mt EXCEPT ![f] = Recent]
                     /\ hd' = [hd EXCEPT ![h].pos = at + l] /\ UNCHANGED ino
Sought(h, p, o) == (CASE p = "set" -> 0 [] p = "cur" -> hd[h].pos [] p = "end" -> Len(data[hd[h].f])) + o
Seek(h, p, o, ok) ==
  /\ hd[h] # Closed /\ ok = (Sought(h, p, o) >= 0)
  /\ hd' = (IF ok THEN [hd EXCEPT ![h].pos = Sought(h, p, o)] ELSE hd) /\ UNCHANGED <<ino, data, mt>>
Size(h) == Len(data[hd[h].f])
SetTime(h, t) == hd[h] # Closed /\ mt' = [mt EXCEPT ![hd[h].f] = t] /\ UNCHANGED <<ino, data, hd>>
(* 1 stands for now *)
Time(f, t) == mt[f] = Whatever \/ t = (IF mt[f] = Recent THEN 1 ELSE mt[f])
NameTime(n, t) == IF n \notin Names \/ n \in {Link, Dir} THEN t = 0 ELSE IF ino[n] = 0 THEN t = 0 ELSE Time(ino[n], t)
Unlink(n, ok) == /\ n \notin {Link, Dir} /\ ok = (ino[n] # 0)
                 /\ ino' = [ino EXCEPT ![n] = 0] /\ UNCHANGED <<data, mt, hd>>
===============================================================================
