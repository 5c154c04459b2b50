-------------------------------- MODULE MCPaa --------------------------------
(* Containers put together from tags, mip maps laid out in any order, gaps,   *)
(* and an offset table with empty entries: they read as what was put in, and  *)
(* not when a byte of it is missing. Blocks: every pixel is one of the        *)
(* block's colours, which lie between the ends it gives.                      *)
EXTENDS Paa, TLC, Json
CONSTANTS MaxMaps, MaxTags
VARIABLES fmt, tags, maps, lay, done
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
D(n, k) == [i \in 1..n |-> (i * 13 + k * 29) % 256]
TagNames == {CGVA, <<71, 65, 76, 70>>, <<195, 169, 97, 98>>}
Sizes == {<<4, 4>>, <<8, 4>>, <<2, 1>>}
Init == fmt \in Formats /\ tags = <<>> /\ maps = <<>> /\ lay = [turn |-> 0, gap |-> 0, skip |-> 0, where |-> 0] /\ done = FALSE
AddTag == Len(tags) < MaxTags /\ \E n \in TagNames, k \in {0, 5} : (\A i \in 1..Len(tags) : tags[i].name # n) /\ tags' = Append(tags, [name |-> n, data |-> D(k, Len(tags))]) /\ UNCHANGED maps
AddMap == Len(maps) < MaxMaps /\ fmt \in DOMAIN Packing /\ \E z \in Sizes, p \in BOOLEAN :
            LET n == IF p THEN 6 ELSE DataSize(Packing[fmt], z[1], z[2]) IN
            maps' = Append(maps, [w |-> z[1], h |-> z[2], packed |-> p, data |-> D(n, Len(maps))]) /\ UNCHANGED tags
Finish == done' = TRUE /\ UNCHANGED <<fmt, tags, maps>>
          /\ \E t \in 0..(IF Len(maps) = 0 THEN 0 ELSE Len(maps) - 1), g \in {0, 3}, s \in {0, 2}, w \in {0, Len(tags)} : lay' = [turn |-> t, gap |-> g, skip |-> s, where |-> w]
Next == ~done /\ (((AddTag \/ AddMap) /\ UNCHANGED <<fmt, lay, done>>) \/ Finish)

N == Len(maps)
MapBytes(m) == LET w == m.w + (IF m.packed THEN 32768 ELSE 0) IN <<w % 256, w \div 256, m.h % 256, m.h \div 256>> \o SubSeq(U32(Len(m.data)), 1, 3) \o m.data
\* the i-th in the file is the map number Order(i)
Order(i) == ((i - 1 + lay.turn) % N) + 1
RECURSIVE Laid(_, _, _)
\* [bytes, offs: map -> place]
Laid(i, at, acc) == IF i > N THEN acc
                    ELSE LET b == MapBytes(maps[Order(i)]) \o D(lay.gap, 1) IN
                         Laid(i + 1, at + Len(b), [bytes |-> acc.bytes \o b, offs |-> [acc.offs EXCEPT ![Order(i)] = at]])
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
TagBytes(t) == GGAT \o t.name \o U32(Len(t.data)) \o t.data
HeadLen == 2 + 12 * Len(tags) + Len(Cat([i \in 1..Len(tags) |-> tags[i].data])) + 12 + 4 * (N + lay.skip * N) + 4
L == Laid(1, HeadLen, [bytes |-> <<>>, offs |-> [i \in 1..N |-> 0]])
Offs == [name |-> SFFO, data |-> Cat([i \in 1..N |-> Cat([k \in 1..lay.skip |-> U32(0)]) \o U32(L.offs[i])])]
AllTags == SubSeq(tags, 1, lay.where) \o <<Offs>> \o SubSeq(tags, lay.where + 1, Len(tags))
File == Codes[fmt] \o Cat([i \in 1..Len(AllTags) |-> TagBytes(AllTags[i])]) \o <<0, 0, 9, 0>> \o L.bytes
Meant == [format |-> fmt, tags |-> AllTags, maps |-> maps]
Back == done => LET r == Read(File) IN r.ok /\ r.v = Meant
Cut == done /\ (N < 2 \/ (lay.gap = 0 /\ lay.skip = 0)) => \A n \in 0..Len(File) - 1 - (IF N = 0 THEN 0 ELSE lay.gap) : ~Read(SubSeq(File, 1, n)).ok
Unknown == done => \A b \in {0, 6, 254} : ~Read([File EXCEPT ![1] = b]).ok
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
Blocks == done /\ N > 0 => \A j \in 1..N : ~maps[j].packed =>
  LET m == maps[j] p == Packing[fmt] px == Picture(p, m.data, m.w, m.h) IN
  /\ Len(m.data) = DataSize(p, m.w, m.h)
  /\ \A i \in 1..m.w * m.h : LET x == (i - 1) % m.w y == (i - 1) \div m.w
         k == SubSeq(m.data, ((y \div 4) * Up(m.w) + x \div 4) * BlockSize(p) + 1, ((y \div 4) * Up(m.w) + x \div 4 + 1) * BlockSize(p))
         c == IF p = "Bc1" THEN k ELSE SubSeq(k, 9, 16)
         A == Rgb(Num2(c)) B == Rgb(Num2(SubSeq(c, 3, 4))) IN
       px[i] = <<0, 0, 0, 0>> \/ (\A q \in 1..3 : Between(px[i][q], A[q], B[q]))
Out == done => PrintT(ToJson([file |-> File, meant |-> Meant]))
=============================================================================
