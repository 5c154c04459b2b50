--------------------------------- MODULE Lzo ---------------------------------
(* LZO1X streams: the machine that reads one. b is the stream, cap the room   *)
(* for what it describes. s = [ip, op, st, res]: the next byte to read, the   *)
(* bytes described so far, what the next instruction may be (0: a run of      *)
(* literals; 1..3: as many literals came last; 4: a run came last), and "run",*)
(* "end" or "err".                                                            *)
(* An instruction is [lit, from, dist, len, tail, at]: lit literals taken     *)
(* from the stream at from, or len bytes copied from dist before; then tail   *)
(* literals taken from the stream at at.                                      *)
EXTENDS Integers, Sequences

Start == [ip |-> 1, op |-> 0, st |-> 0, res |-> "run"]
Left(b, ip) == Len(b) - ip + 1
None == [lit |-> 0, from |-> 0, dist |-> 0, len |-> 0, tail |-> 0, at |-> 0]
Fail(s) == [s |-> [s EXCEPT !.res = "err"], ins |-> None]
\* a length that does not fit its field: zero bytes, 255 each, up to one that is not zero
RECURSIVE NonZero(_, _)
NonZero(b, ip) == IF ip > Len(b) THEN 0 ELSE IF b[ip] # 0 THEN ip ELSE NonZero(b, ip + 1)
Long(b, ip, base) == LET j == NonZero(b, ip) IN IF j = 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, n |-> base + 255 * (j - ip) + b[j], ip |-> j + 1]

\* three bytes (of the end) always follow literals
Literals(s, b, cap, n, ip, st) ==
  IF Left(b, ip) < n + 3 \/ cap - s.op < n THEN Fail(s)
  ELSE [s |-> [s EXCEPT !.ip = ip + n, !.op = s.op + n, !.st = st], ins |-> [None EXCEPT !.lit = n, !.from = ip]]
Copy(s, b, cap, dist, n, ip, tail) ==
  IF dist > s.op \/ cap - s.op < n + tail \/ Left(b, ip) < tail + 3 THEN Fail(s)
  ELSE [s |-> [s EXCEPT !.ip = ip + tail, !.op = s.op + n + tail, !.st = tail],
        ins |-> [None EXCEPT !.dist = dist, !.len = n, !.tail = tail, !.at = ip]]

Decode(s, b, cap) ==
  LET t == b[s.ip] ip == s.ip + 1 IN
  IF s.ip = 1 /\ Len(b) < 3 THEN Fail(s)
  ELSE IF s.ip = 1 /\ t > 17 THEN Literals(s, b, cap, t - 17, ip, IF t < 21 THEN t - 17 ELSE 4)
  ELSE IF t < 16 /\ s.st = 0 THEN
       IF t > 0 THEN Literals(s, b, cap, t + 3, ip, 4)
       ELSE LET l == Long(b, ip, 18) IN IF ~l.ok THEN Fail(s) ELSE Literals(s, b, cap, l.n, l.ip, 4)
  ELSE IF t < 16 THEN IF s.st = 4 THEN Copy(s, b, cap, 2049 + (t \div 4) + 4 * b[ip], 3, ip + 1, t % 4)
                      ELSE Copy(s, b, cap, 1 + (t \div 4) + 4 * b[ip], 2, ip + 1, t % 4)
  ELSE IF t >= 64 THEN Copy(s, b, cap, 1 + ((t \div 4) % 8) + 8 * b[ip], (t \div 32) + 1, ip + 1, t % 4)
  ELSE LET near == t >= 32
           field == IF near THEN t % 32 ELSE t % 8
           l == IF field > 0 THEN [ok |-> TRUE, n |-> field, ip |-> ip] ELSE Long(b, ip, IF near THEN 31 ELSE 7)
       IN IF ~l.ok \/ Left(b, l.ip) < 2 THEN Fail(s)
          ELSE LET w == b[l.ip] + 256 * b[l.ip + 1] d == w \div 4 IN
               IF near THEN Copy(s, b, cap, 1 + d, l.n + 2, l.ip + 2, w % 4)
               ELSE LET far == d + 16384 * ((t \div 8) % 2) IN
                    \* the end: a copy of three from nowhere, and nothing behind it
                    IF far = 0 THEN IF l.n = 1 /\ l.ip + 2 = Len(b) + 1 THEN [s |-> [s EXCEPT !.res = "end", !.ip = l.ip + 2], ins |-> None] ELSE Fail(s)
                    ELSE Copy(s, b, cap, 16384 + far, l.n + 2, l.ip + 2, w % 4)

\* these are the bytes the instruction describes, as far as there are any
Told(i, b, op, out) ==
  /\ op + i.lit + i.len + i.tail <= Len(out)
  /\ \A k \in 1..i.lit : out[op + k] = b[i.from + k - 1]
  /\ \A k \in 1..i.len : out[op + k] = out[op + k - i.dist]
  /\ \A k \in 1..i.tail : out[op + i.len + k] = b[i.at + k - 1]

\* the most room a compressor may take
Worst(n) == n + (n \div 16) + 64 + 3
=============================================================================
