------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255.                                      *)
EXTENDS Sequences, Integers

U16(n) == <<n % 256, (n \div 256) % 256>>
U24(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256>>
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
CStr(s) == s \o <<0>>

\* little-endian number at i; -1 if it does not fit TLC's integers
Num16(b, i) == b[i] + 256 * b[i + 1]
Num24(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2]
Num32(b, i) == IF b[i + 3] >= 128 THEN -1 ELSE b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]

RECURSIVE ZeroAt(_, _)
\* first zero byte from i on; 0 if there is none
ZeroAt(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroAt(b, i + 1)

LowByte(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowBytes(s) == [i \in 1..Len(s) |-> LowByte(s[i])]
BackByte(c) == IF c = 47 THEN 92 ELSE c
BackBytes(s) == [i \in 1..Len(s) |-> BackByte(s[i])]

RECURSIVE LessBytes(_, _)
LessBytes(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessBytes(Tail(a), Tail(b))

RECURSIVE FlatBytes(_)
FlatBytes(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatBytes(Tail(ss))

RECURSIVE TrimL(_, _)
TrimL(s, c) == IF s # <<>> /\ s[1] = c THEN TrimL(Tail(s), c) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, c) == IF s # <<>> /\ s[Len(s)] = c THEN TrimR(SubSeq(s, 1, Len(s) - 1), c) ELSE s
Trim(s, c) == TrimR(TrimL(s, c), c)

AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
=============================================================================
