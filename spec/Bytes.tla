------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as they travel in MQTT packets: big endian integers,       *)
(* variable byte integers, length prefixed fields, UTF-8 text.             *)
(* A byte string is a sequence over 0..255. Positions are 1 based; a       *)
(* region of b is given by a start p and an inclusive end e.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

U16(b, p)  == b[p] * 256 + b[p + 1]
Enc16(n)   == << n \div 256, n % 256 >>
\* n < 2^28: the range of a variable byte integer
Enc32(n)   == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(* ---------------------------- variable byte integers ------------------- *)
MaxVarInt == 268435455

VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4

EncVar(n) ==
  CASE n < 128     -> << n >>
    [] n < 16384   -> << 128 + (n % 128), n \div 128 >>
    [] n < 2097152 -> << 128 + (n % 128), 128 + ((n \div 128) % 128), n \div 16384 >>
    [] OTHER       -> << 128 + (n % 128), 128 + ((n \div 128) % 128),
                         128 + ((n \div 16384) % 128), n \div 2097152 >>

\* k: "ok" read, "short" the region ends inside it, "bad" more than four bytes
VI(k, n, l) == [k |-> k, n |-> n, l |-> l]
ReadVar(b, p, e) ==
  IF p > e THEN VI("short", 0, 0)
  ELSE IF b[p] < 128 THEN VI("ok", b[p], 1)
  ELSE IF p + 1 > e THEN VI("short", 0, 0)
  ELSE IF b[p+1] < 128 THEN VI("ok", (b[p] - 128) + 128 * b[p+1], 2)
  ELSE IF p + 2 > e THEN VI("short", 0, 0)
  ELSE IF b[p+2] < 128 THEN VI("ok", (b[p] - 128) + 128 * (b[p+1] - 128) + 16384 * b[p+2], 3)
  ELSE IF p + 3 > e THEN VI("short", 0, 0)
  ELSE IF b[p+3] < 128
       THEN VI("ok", (b[p] - 128) + 128 * (b[p+1] - 128) + 16384 * (b[p+2] - 128) + 2097152 * b[p+3], 4)
  ELSE VI("bad", 0, 4)

Minimal(vi) == vi.k = "ok" /\ vi.l = VarLen(vi.n)

(* ------------------------------ length prefixed fields ----------------- *)
\* ok: complete inside the region; s content; nx position after it
ReadLP(b, p, e) ==
  IF p + 1 > e THEN [ok |-> FALSE, s |-> << >>, nx |-> p]
  ELSE LET n == U16(b, p) IN
       IF p + 1 + n > e THEN [ok |-> FALSE, s |-> << >>, nx |-> p]
       ELSE [ok |-> TRUE, s |-> SubSeq(b, p + 2, p + 1 + n), nx |-> p + 2 + n]

EncLP(s) == Enc16(Len(s)) \o s

(* ------------------------------------ text ----------------------------- *)
Utf8Len(c) == IF c < 128 THEN 1
              ELSE IF c < 194 THEN 0
              ELSE IF c < 224 THEN 2
              ELSE IF c < 240 THEN 3
              ELSE IF c < 245 THEN 4 ELSE 0

Cont(c) == c >= 128 /\ c <= 191

\* every byte is either the start of a complete, shortest form code point that
\* is no surrogate, or one of the continuation bytes of such a start
ValidUtf8(s) ==
  LET L == Len(s) IN
  \A i \in 1..L :
    \/ s[i] < 128
    \/ /\ Cont(s[i])
       /\ \E k \in 1..3 : /\ i - k >= 1
                          /\ Utf8Len(s[i - k]) > k
                          /\ \A j \in 1..(k - 1) : Cont(s[i - j])
    \/ LET n == Utf8Len(s[i]) IN
       /\ n > 1
       /\ i + n - 1 <= L
       /\ \A k \in 1..(n - 1) : Cont(s[i + k])
       /\ s[i] = 224 => s[i + 1] >= 160
       /\ s[i] = 237 => s[i + 1] <= 159
       /\ s[i] = 240 => s[i + 1] >= 144
       /\ s[i] = 244 => s[i + 1] <= 143

\* no U+0000..U+001F, U+007F..U+009F
NoControl(s) ==
  \A i \in 1..Len(s) : /\ s[i] >= 32
                       /\ s[i] # 127
                       /\ (s[i] = 194 /\ i < Len(s)) => s[i + 1] >= 160

Text(s) == ValidUtf8(s) /\ NoControl(s)

(* ------------------------- sequences of byte strings ------------------- *)
StartsWith(s, q) == Len(s) >= Len(q) /\ SubSeq(s, 1, Len(q)) = q

\* position of the first c at or after p, 0 if there is none
IndexFrom(s, c, p) ==
  IF \E i \in p..Len(s) : s[i] = c
  THEN CHOOSE i \in p..Len(s) : s[i] = c /\ \A j \in p..(i - 1) : s[j] # c
  ELSE 0

RECURSIVE Sum(_, _, _)
Sum(s, i, acc) == IF i > Len(s) THEN acc ELSE Sum(s, i + 1, acc + s[i])

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
