-------------------------------- MODULE Big --------------------------------
(* Natural numbers beyond 32 bits: little-endian sequences in base 256,       *)
(* without zeros at the end.                                                  *)
EXTENDS Sequences, Integers

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(a, m, c, i, acc) ==
  IF i > Len(a) /\ c = 0 THEN acc
  ELSE LET v == Dig(a, i) * m + c IN MulAddFrom(a, m, v \div 256, i + 1, Append(acc, v % 256))
\* a * m + c for m, c below 2^20
MulAdd(a, m, c) == Norm(MulAddFrom(a, m, c, 1, <<>>))

RECURSIVE FromDigits(_, _, _)
\* ds: digit values, most significant first
FromDigits(ds, base, acc) == IF ds = <<>> THEN acc ELSE FromDigits(Tail(ds), base, MulAdd(acc, base, Head(ds)))

RECURSIVE Scale(_, _, _)
\* a * m^n
Scale(a, m, n) == IF n <= 0 THEN a
                  ELSE IF n >= 4 /\ m <= 16 THEN Scale(MulAdd(a, m * m * m * m, 0), m, n - 4)
                  ELSE Scale(MulAdd(a, m, 0), m, n - 1)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
Le(a, b) == Cmp(a, b) <= 0

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o FromInt(n \div 256)

\* magnitude and sign of a two's complement number in bytes
RECURSIVE Plus1(_, _)
Plus1(a, i) == IF i > Len(a) THEN a ELSE IF a[i] < 255 THEN [a EXCEPT ![i] = @ + 1] ELSE Plus1([a EXCEPT ![i] = 0], i + 1)
SignedNeg(b) == b[Len(b)] >= 128
SignedMag(b) == Norm(IF SignedNeg(b) THEN Plus1([i \in 1..Len(b) |-> 255 - b[i]], 1) ELSE b)

\* is the 32-bit float with the bytes b a nearest one to (-1)^neg * d * 10^e ?
Huge32(d, e) == d # <<>> /\ ~Le(Scale(d, 10, IF e > 0 THEN e ELSE 0), Scale(Scale(<<1>>, 2, 127), 10, IF e < 0 THEN -e ELSE 0))
FloatOk(b, neg, d, e) ==
  LET s == b[4] >= 128
      ex == (b[4] % 128) * 2 + b[3] \div 128
      fr == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
      m == IF ex = 0 THEN fr ELSE fr + 8388608
      y == (IF ex = 0 THEN -149 ELSE ex - 150) - 1
      mid == Scale(Scale(d, 10, IF e > 0 THEN e ELSE 0), 2, IF y < 0 THEN -y ELSE 0)
      side(n) == Scale(Scale(FromInt(n), 2, IF y > 0 THEN y ELSE 0), 10, IF e < 0 THEN -e ELSE 0)
  IN \/ Huge32(d, e)
     \/ /\ ex # 255
        /\ (d # <<>> => s = neg)
        /\ (m > 0 => Le(side(2 * m - 1), mid)) /\ Le(mid, side(2 * m + 1))
=============================================================================
