--------------------------------- MODULE Paa ---------------------------------
(* Texture containers, byte for byte: format, tags, the mip maps the offset   *)
(* table points to; and the picture a mip map holds (DXT blocks).             *)
EXTENDS Integers, Sequences, FiniteSets
GGAT == <<71, 71, 65, 84>>
SFFO == <<83, 70, 70, 79>>
CGVA == <<67, 71, 86, 65>>
CXAM == <<67, 88, 65, 77>>
Codes == [DXT1 |-> <<1, 255>>, DXT2 |-> <<2, 255>>, DXT3 |-> <<3, 255>>, DXT4 |-> <<4, 255>>, DXT5 |-> <<5, 255>>,
          RGBA4 |-> <<68, 68>>, RGBA5 |-> <<21, 85>>, RGBA8 |-> <<136, 136>>, GRAYA |-> <<128, 128>>]
Formats == DOMAIN Codes
\* those whose mip maps can be read, and how they are packed
Packing == [DXT1 |-> "Bc1", DXT3 |-> "Bc2", DXT5 |-> "Bc3"]
TooMany == 16777216
Num4(b) == IF b[4] # 0 THEN TooMany ELSE b[1] + 256 * b[2] + 65536 * b[3]
Num3(b) == b[1] + 256 * b[2] + 65536 * b[3]
Num2(b) == b[1] + 256 * b[2]

-----------------------------------------------------------------------------
(* reading *)
Bad == [ok |-> FALSE, at |-> 0]
Got(v, at) == [ok |-> TRUE, v |-> v, at |-> at]
Take(f, at, n) == IF at + n - 1 > Len(f) THEN Bad ELSE Got(SubSeq(f, at, at + n - 1), at + n)
Follow(n, i, lo, hi) == i <= Len(n) /\ n[i] >= lo /\ n[i] <= hi
RECURSIVE Utf8(_, _)
Utf8(n, i) ==
  IF i > Len(n) THEN TRUE
  ELSE LET b == n[i] F(k) == Follow(n, k, 128, 191) IN
    IF b < 128 THEN Utf8(n, i + 1)
    ELSE IF b \in 194..223 THEN F(i + 1) /\ Utf8(n, i + 2)
    ELSE IF b \in 224..239 THEN Follow(n, i + 1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191) /\ F(i + 2) /\ Utf8(n, i + 3)
    ELSE IF b \in 240..244 THEN Follow(n, i + 1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191) /\ F(i + 2) /\ F(i + 3) /\ Utf8(n, i + 4)
    ELSE FALSE
\* the tags, up to four bytes that begin none
RECURSIVE Tags(_, _, _)
Tags(f, at, acc) ==
  LET s == Take(f, at, 4) IN
  IF ~s.ok THEN Bad ELSE IF s.v # GGAT THEN Got(acc, s.at)
  ELSE LET n == Take(f, s.at, 4)
           l == IF n.ok /\ Utf8(n.v, 1) THEN Take(f, n.at, 4) ELSE Bad
           d == IF l.ok THEN Take(f, l.at, Num4(l.v)) ELSE Bad
       IN IF d.ok THEN Tags(f, d.at, Append(acc, [name |-> n.v, data |-> d.v])) ELSE Bad
Named(ts, n) == {i \in 1..Len(ts) : ts[i].name = n}
OneEach(ts) == \A i, j \in 1..Len(ts) : ts[i].name = ts[j].name => i = j
\* places of mip maps, in the table's order, without the empty entries
Table(ts) == IF Named(ts, SFFO) = {} THEN <<>> ELSE ts[CHOOSE i \in Named(ts, SFFO) : TRUE].data
Places(ts) == LET d == Table(ts) all == [i \in 1..Len(d) \div 4 |-> Num4(SubSeq(d, 4 * i - 3, 4 * i))] IN SelectSeq(all, LAMBDA x : x # 0)
Map(f, at) ==
  LET h == Take(f, at, 7)
      d == IF h.ok THEN Take(f, h.at, Num3(SubSeq(h.v, 5, 7))) ELSE Bad
      w == Num2(h.v)
  IN IF ~d.ok THEN Bad ELSE Got([w |-> w % 32768, packed |-> w >= 32768, h |-> Num2(SubSeq(h.v, 3, 4)), data |-> d.v], d.at)
Read(f) ==
  LET c == Take(f, 1, 2)
      fm == IF c.ok THEN {x \in Formats : Codes[x] = c.v} ELSE {}
      ts == IF fm = {} THEN Bad ELSE Tags(f, c.at, <<>>)
      pl == IF ts.ok THEN Places(ts.v) ELSE <<>>
      ms == [i \in 1..Len(pl) |-> Map(f, pl[i] + 1)]
      fmt == CHOOSE x \in fm : TRUE
  IN IF ~ts.ok THEN Bad
     ELSE IF \E i \in 1..Len(ms) : ~ms[i].ok THEN Bad
     ELSE IF ms # <<>> /\ fmt \notin DOMAIN Packing THEN Bad
     ELSE Got([format |-> fmt, tags |-> ts.v, maps |-> [i \in 1..Len(ms) |-> ms[i].v]], ts.at)

-----------------------------------------------------------------------------
(* pictures: rows of pixels, each red, green, blue, alpha *)
Up(n) == (n + 3) \div 4
BlockSize(p) == IF p = "Bc1" THEN 8 ELSE 16
DataSize(p, w, h) == Up(w) * Up(h) * BlockSize(p)
Rgb(v) == LET r == v \div 2048 g == (v \div 32) % 64 b == v % 32 IN
          <<8 * r + r \div 4, 4 * g + g \div 16, 8 * b + b \div 4>>
Mix(a, b, x, y) == [i \in 1..3 |-> (x * a[i] + y * b[i]) \div (x + y)]
\* the four colours of a block of 8 bytes, with their alpha
Palette(k, one) ==
  LET a == Num2(SubSeq(k, 1, 2)) b == Num2(SubSeq(k, 3, 4)) A == Rgb(a) B == Rgb(b) IN
  IF one /\ a <= b THEN <<A \o <<255>>, B \o <<255>>, Mix(A, B, 1, 1) \o <<255>>, <<0, 0, 0, 0>>>>
  ELSE <<A \o <<255>>, B \o <<255>>, Mix(A, B, 2, 1) \o <<255>>, Mix(A, B, 1, 2) \o <<255>>>>
Pow4 == <<1, 4, 16, 64>>
\* pixel i of 16
Colour(k, one, i) == Palette(k, one)[((k[5 + (i - 1) \div 4] \div Pow4[((i - 1) % 4) + 1]) % 4) + 1]
Nibble(k, i) == LET b == k[(i + 1) \div 2] IN IF i % 2 = 1 THEN b % 16 ELSE b \div 16
Pow8 == <<1, 8, 64, 512, 4096, 32768, 262144, 2097152>>
Ramp(k) == LET a == k[1] b == k[2] IN
  IF a <= b THEN <<a, b>> \o [i \in 1..4 |-> ((5 - i) * a + i * b) \div 5] \o <<0, 255>>
  ELSE <<a, b>> \o [i \in 1..6 |-> ((7 - i) * a + i * b) \div 7]
Three(k, i) == LET o == 3 * ((i - 1) \div 8) v == k[3 + o] + 256 * k[4 + o] + 65536 * k[5 + o] IN (v \div Pow8[((i - 1) % 8) + 1]) % 8
Pixel(p, k, i) ==
  CASE p = "Bc1" -> Colour(k, TRUE, i)
    [] p = "Bc2" -> [Colour(SubSeq(k, 9, 16), FALSE, i) EXCEPT ![4] = 17 * Nibble(k, i)]
    [] p = "Bc3" -> [Colour(SubSeq(k, 9, 16), FALSE, i) EXCEPT ![4] = Ramp(k)[Three(k, i) + 1]]
\* the pixel at column x, row y (from 0)
At(p, data, w, x, y) ==
  LET n == (y \div 4) * Up(w) + x \div 4 s == BlockSize(p)
  IN Pixel(p, SubSeq(data, n * s + 1, n * s + s), (y % 4) * 4 + (x % 4) + 1)
Picture(p, data, w, h) == [i \in 1..w * h |-> At(p, data, w, (i - 1) % w, (i - 1) \div w)]

-----------------------------------------------------------------------------
(* what is written for a picture *)
Writable(w, h) == w < 32768 /\ h < 65536 /\ Up(w) * Up(h) * 16 < 16777216
RECURSIVE SumOf(_, _)
SumOf(px, ch) == IF Len(px) = 1 THEN px[1][ch]
                 ELSE LET k == Len(px) \div 2 IN SumOf(SubSeq(px, 1, k), ch) + SumOf(SubSeq(px, k + 1, Len(px)), ch)
Average(px) == [c \in 1..4 |-> SumOf(px, c) \div Len(px)]
Largest(px) == [c \in 1..4 |-> CHOOSE v \in {px[i][c] : i \in 1..Len(px)} : \A i \in 1..Len(px) : px[i][c] <= v]
=============================================================================
