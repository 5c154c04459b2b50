-------------------------------- MODULE MCLzo --------------------------------
(* Every stream of a few instructions, in every way of writing them: the      *)
(* machine reads the instructions back, needs all of the stream and all of    *)
(* the room, and accepts nothing that is cut short.                           *)
EXTENDS Lzo, Json, TLC
CONSTANTS MaxIns, Wide
VARIABLES b, op, st, ins, done
Lits(n, o) == [k \in 1..n |-> ((o + k) * 37 + 5) % 256]
RECURSIVE Ext(_)
Ext(x) == IF x <= 255 THEN <<x>> ELSE <<0>> \o Ext(x - 255)
Le(w) == <<w % 256, w \div 256>>
M1Near(d, tail) == <<((d - 1) % 4) * 4 + tail, (d - 1) \div 4>>
M1Far(d, tail) == M1Near(d - 2048, tail)
M2(d, n, tail) == <<(n - 1) * 32 + ((d - 1) % 8) * 4 + tail, (d - 1) \div 8>>
M3(d, n, tail) == (IF n <= 33 THEN <<32 + n - 2>> ELSE <<32>> \o Ext(n - 33)) \o Le((d - 1) * 4 + tail)
M4(d, n, tail) == LET x == d - 16384 h == 16 + 8 * (x \div 16384) IN (IF n <= 9 THEN <<h + n - 2>> ELSE <<h>> \o Ext(n - 9)) \o Le((x % 16384) * 4 + tail)
End == <<17, 0, 0>>

Init == b = <<>> /\ op = 0 /\ st = 0 /\ ins = <<>> /\ done = FALSE
Run(n, w, s) == /\ b' = b \o w \o Lits(n, op) /\ op' = op + n /\ st' = s
                /\ ins' = Append(ins, [None EXCEPT !.lit = n, !.from = Len(b) + Len(w) + 1])
Opening == b = <<>> /\ \E n \in {1, 3, 4, 5} \cup (IF Wide THEN {2, 238} ELSE {}) : Run(n, <<17 + n>>, IF n < 4 THEN n ELSE 4)
Literal == st = 0 /\ \E n \in {4, 18, 19, 274} \cup (IF Wide THEN {17, 273, 528} ELSE {}) : Run(n, IF n <= 18 THEN <<n - 3>> ELSE <<0>> \o Ext(n - 18), 4)
Back(w, d, n, tail) == /\ d <= op
                       /\ b' = b \o w \o Lits(tail, op + n) /\ op' = op + n + tail /\ st' = tail
                       /\ ins' = Append(ins, [None EXCEPT !.dist = d, !.len = n, !.tail = tail, !.at = Len(b) + Len(w) + 1])
Tails == IF Wide THEN 0..3 ELSE {0, 2}
\* distances at the ends of the fields, and the longest there is
Dists(lo, hi) == {d \in {lo, lo + 1, lo + 3, lo + 8, hi - 1, hi, op} : d >= lo /\ d <= hi /\ d <= op}
Copying == op > 0 /\ \E tail \in Tails :
  \/ st \in 1..3 /\ \E d \in Dists(1, 1024) : Back(M1Near(d, tail), d, 2, tail)
  \/ st = 4 /\ \E d \in Dists(2049, 3072) : Back(M1Far(d, tail), d, 3, tail)
  \/ \E d \in Dists(1, 2048), n \in {3, 8} : Back(M2(d, n, tail), d, n, tail)
  \/ \E d \in Dists(1, 16384), n \in {3, 33, 34, 289} \cup (IF Wide THEN {2, 288, 543} ELSE {}) : n > 2 /\ Back(M3(d, n, tail), d, n, tail)
  \/ tail = 0 /\ Len(ins) = 1 /\ \E n \in {2100, 17000, 50000} : Back(M3(1, n, tail), 1, n, tail)
  \/ \E d \in Dists(16385, 49151) \cup Dists(32768, 32769), n \in {3, 9, 10, 265} : Back(M4(d, n, tail), d, n, tail)
Finish == b' = b \o End /\ done' = TRUE /\ UNCHANGED <<op, st, ins>>
Next == ~done /\ (Finish \/ (Len(ins) < MaxIns /\ (Opening \/ Literal \/ Copying) /\ done' = FALSE))

RECURSIVE Whole(_, _, _, _)
Whole(s, w, cap, l) == IF s.res # "run" THEN [s |-> s, ins |-> l]
                       ELSE LET r == Decode(s, w, cap) IN Whole(r.s, w, cap, IF r.s.res = "run" THEN Append(l, r.ins) ELSE l)
All(w, cap) == Whole(Start, w, cap, <<>>)
ReadBack == done => LET r == All(b, op) IN r.s.res = "end" /\ r.s.op = op /\ r.ins = ins
ExactRoom == done /\ op > 0 => All(b, op - 1).s.res = "err"
NoPrefix == done /\ Len(b) < 60 => \A n \in 0..Len(b) - 1 : All(SubSeq(b, 1, n), op).s.res = "err"
NothingBehind == done => All(b \o <<0>>, op).s.res = "err"
Out == done => PrintT(ToJson([stream |-> b, cap |-> op]))
=============================================================================
