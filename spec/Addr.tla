--------------------------------- MODULE Addr ---------------------------------
(* Addresses: a family and its bytes, their spellings (RFC 4291, canonical: RFC   *)
(* 5952) and what comparing them must be.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
Dec == "0123456789"
HexL == "0123456789abcdef"
HexU == "0123456789ABCDEF"
IdxOf(c, alphabet) == CHOOSE i \in 1 .. Len(alphabet) : Ch(alphabet, i) = c
Has(c, alphabet) == \E i \in 1 .. Len(alphabet) : Ch(alphabet, i) = c
IsDec(c) == Has(c, Dec)
IsHex(c) == Has(c, HexL) \/ Has(c, HexU)
HexVal(c) == IF Has(c, HexL) THEN IdxOf(c, HexL) - 1 ELSE IdxOf(c, HexU) - 1
RECURSIVE NumIn(_, _)
NumIn(s, base) == IF s = "" THEN 0 ELSE NumIn(SubSeq(s, 1, Len(s) - 1), base) * base + HexVal(Ch(s, Len(s)))
RECURSIVE Split(_, _)
Split(s, c) == IF \A i \in 1 .. Len(s) : Ch(s, i) # c THEN <<s>>
               ELSE LET k == CHOOSE i \in 1 .. Len(s) : Ch(s, i) = c /\ \A j \in 1 .. i - 1 : Ch(s, j) # c
                    IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)
Bad == <<>>
IsByte(p) == /\ Len(p) \in 1 .. 3 /\ (\A i \in 1 .. Len(p) : IsDec(Ch(p, i))) /\ (Len(p) > 1 => Ch(p, 1) # "0")
             /\ NumIn(p, 10) <= 255
(* strict dotted quads *)
ParseQuad(s) == LET p == Split(s, ".") IN
  IF Len(p) = 4 /\ \A i \in 1 .. 4 : IsByte(p[i]) THEN [i \in 1 .. 4 |-> NumIn(p[i], 10)] ELSE Bad
(* one to four parts, in bases 8, 10 and 16: what the C library may read as an IPv4 address *)
LooseQuad(s) == /\ s # "" /\ \A i \in 1 .. Len(s) : IsHex(Ch(s, i)) \/ Ch(s, i) \in {".", "x", "X"}
                /\ IsDec(Ch(s, 1))
(* an octet written with leading zeros: accepted by some C libraries inside an IPv6 address *)
LooseTail(s) == LET p == Split(s, ".") IN Len(p) = 4 /\ \E i \in 1 .. 4 : Len(p[i]) > 1 /\ Ch(p[i], 1) = "0"
IsGroup(p) == Len(p) \in 1 .. 4 /\ \A i \in 1 .. Len(p) : IsHex(Ch(p, i))
(* the bytes of a part without "::", the last one possibly a quad *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
PartOk(s, quad) == LET g == Split(s, ":") IN
  \A i \in 1 .. Len(g) : IsGroup(g[i]) \/ (quad /\ i = Len(g) /\ ParseQuad(g[i]) # Bad)
PartBytes(s) == IF s = "" THEN <<>> ELSE LET g == Split(s, ":") IN
  Flat([i \in 1 .. Len(g) |-> IF IsGroup(g[i]) THEN <<NumIn(g[i], 16) \div 256, NumIn(g[i], 16) % 256>> ELSE ParseQuad(g[i])])
Gap(s) == {i \in 1 .. Len(s) - 1 : SubSeq(s, i, i + 1) = "::"}
Zeros(n) == [i \in 1 .. n |-> 0]
Parse6(s) ==
  IF Gap(s) = {} THEN (IF s # "" /\ PartOk(s, TRUE) /\ Len(PartBytes(s)) = 16 THEN PartBytes(s) ELSE Bad)
  ELSE IF Cardinality(Gap(s)) > 1 THEN Bad
  ELSE LET k == CHOOSE i \in Gap(s) : TRUE
           a == SubSeq(s, 1, k - 1)
           b == SubSeq(s, k + 2, Len(s))
       IN IF (a = "" \/ PartOk(a, FALSE)) /\ (b = "" \/ PartOk(b, TRUE)) /\ Len(PartBytes(a)) + Len(PartBytes(b)) <= 14
          THEN PartBytes(a) \o Zeros(16 - Len(PartBytes(a)) - Len(PartBytes(b))) \o PartBytes(b) ELSE Bad
(* an IPv4 address in IPv6 clothes *)
Mapped(b) == b # Bad /\ SubSeq(b, 1, 12) = Zeros(10) \o <<255, 255>>
Parse(s, want) ==
  IF want # 6 /\ ParseQuad(s) # Bad THEN [fam |-> 4, b |-> ParseQuad(s)]
  ELSE IF want # 4 /\ Parse6(s) # Bad THEN [fam |-> 6, b |-> Parse6(s)]
  ELSE IF want = 4 /\ Mapped(Parse6(s)) THEN [fam |-> 4, b |-> SubSeq(Parse6(s), 13, 16)]
  ELSE [fam |-> 0, b |-> <<>>]
(* spellings that are not canonical enough to be demanded or forbidden *)
Unspecified(s) == LooseQuad(s) \/ LooseTail(Split(s, ":")[Len(Split(s, ":"))]) \/ Has("%", s)
(* ---- canonical text *)
DecText(n) == ToString(n)
Hex1(n) == SubSeq(HexL, n + 1, n + 1)
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN Hex1(n) ELSE HexText(n \div 16) \o Hex1(n % 16)
Quad(b) == DecText(b[1]) \o "." \o DecText(b[2]) \o "." \o DecText(b[3]) \o "." \o DecText(b[4])
Groups(b) == [i \in 1 .. 8 |-> b[2 * i - 1] * 256 + b[2 * i]]
Runs(g) == {r \in (1 .. 8) \X (2 .. 8) : r[1] + r[2] - 1 <= 8 /\ \A i \in r[1] .. r[1] + r[2] - 1 : g[i] = 0}
BestRun(g) == CHOOSE r \in Runs(g) : \A q \in Runs(g) : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] >= r[1])
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ":" \o Join(Tail(q))
Text6(b) == LET g == Groups(b)
                h(lo, hi) == [i \in 1 .. hi - lo + 1 |-> HexText(g[lo + i - 1])]
            IN IF Runs(g) = {} THEN Join(h(1, 8))
               ELSE LET r == BestRun(g)
                        quad == SubSeq(b, 13, 16)
                    IN IF r = <<1, 6>> THEN "::" \o Quad(quad)
                       ELSE IF r = <<1, 5>> /\ g[6] = 65535 THEN "::ffff:" \o Quad(quad)
                       ELSE Join(h(1, r[1] - 1)) \o "::" \o Join(h(r[1] + r[2], 8))
Text(fam, b) == IF fam = 4 THEN Quad(b) ELSE Text6(b)
SockLen(fam) == IF fam = 4 THEN 16 ELSE 28
(* ---- order: a matrix of signs is a total order whose equality is that of the addresses *)
TotalOrder(a, m) ==
  LET D == DOMAIN a IN
  /\ \A i, j \in D : (m[i][j] = 0) = (a[i] = a[j])
  /\ \A i, j \in D : m[i][j] = -m[j][i]
  /\ \A i, j, k \in D : m[i][j] = -1 /\ m[j][k] = -1 => m[i][k] = -1
AndByte(x, y) == LET bit(n, k) == (n \div (2 ^ k)) % 2
                     s[k \in 0 .. 8] == IF k = 8 THEN 0 ELSE bit(x, k) * bit(y, k) * 2 ^ k + s[k + 1] IN s[0]
=============================================================================
