--------------------------------- MODULE P3d ---------------------------------
(* Model files (MLOD), byte for byte: what lies in a file, and what is        *)
(* written for a model.                                                       *)
(*                                                                            *)
(* A model is [version, lods], a level of detail [major, minor, res, points:  *)
(* seq of [at, flags], normals, faces: seq of [verts, flags, texture,         *)
(* material], tags: seq of [name, data]]. Numbers, coordinates and vertices   *)
(* (point, normal, u, v: 16 bytes) are the bytes they have in a file; names   *)
(* are their bytes.                                                           *)
EXTENDS Integers, Sequences
MLOD == <<77, 76, 79, 68>>
P3DM == <<80, 51, 68, 77>>
TAGG == <<84, 65, 71, 71>>
EndName == <<35, 69, 110, 100, 79, 102, 70, 105, 108, 101, 35>>
Zero(n) == [i \in 1..n |-> 0]
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* counts; one that no file here can hold stands for all such
TooMany == 16777216
Num(b) == IF b[4] # 0 THEN TooMany ELSE b[1] + 256 * b[2] + 65536 * b[3]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
           ELSE LET h == Len(q) \div 2 IN Flat(SubSeq(q, 1, h)) \o Flat(SubSeq(q, h + 1, Len(q)))

-----------------------------------------------------------------------------
(* writing *)
PointBytes(p) == p.at \o p.flags
FaceBytes(f) == U32(Len(f.verts)) \o Flat(f.verts) \o (IF Len(f.verts) = 3 THEN Zero(16) ELSE <<>>)
                \o f.flags \o f.texture \o <<0>> \o f.material \o <<0>>
TagBytes(t) == <<1>> \o t.name \o <<0>> \o U32(Len(t.data)) \o t.data
EndBytes == <<1>> \o EndName \o <<0>> \o U32(0)
Each(Op(_), q) == Flat([i \in 1..Len(q) |-> Op(q[i])])
LodBytes(l) == P3DM \o l.major \o l.minor \o U32(Len(l.points)) \o U32(Len(l.normals)) \o U32(Len(l.faces)) \o Zero(4)
               \o Each(PointBytes, l.points) \o Flat(l.normals) \o Each(FaceBytes, l.faces)
               \o TAGG \o Each(TagBytes, l.tags) \o EndBytes \o l.res
Bytes(m) == MLOD \o m.version \o U32(Len(m.lods)) \o Each(LodBytes, m.lods)
Writable(m) == \A i \in 1..Len(m.lods) : \A j \in 1..Len(m.lods[i].faces) : Len(m.lods[i].faces[j].verts) \in {3, 4}
\* a name is ended by a zero byte, the tags by theirs
NoZero(n) == \A i \in 1..Len(n) : n[i] # 0
Sayable(m) == \A i \in 1..Len(m.lods) : LET l == m.lods[i] IN
                 /\ \A j \in 1..Len(l.faces) : NoZero(l.faces[j].texture) /\ NoZero(l.faces[j].material)
                 /\ \A j \in 1..Len(l.tags) : NoZero(l.tags[j].name) /\ l.tags[j].name # EndName

-----------------------------------------------------------------------------
(* reading: [ok, v, at], at the place behind *)
Bad == [ok |-> FALSE, at |-> 0]
Got(v, at) == [ok |-> TRUE, v |-> v, at |-> at]
Take(f, at, n) == IF at + n - 1 > Len(f) THEN Bad ELSE Got(SubSeq(f, at, at + n - 1), at + n)
\* n pieces of k bytes
Pieces(f, at, n, k) == IF n > (Len(f) - at + 1) \div k THEN Bad
                       ELSE Got([i \in 1..n |-> SubSeq(f, at + (i - 1) * k, at + i * k - 1)], at + n * k)
RECURSIVE ZeroFrom(_, _)
ZeroFrom(f, i) == IF i > Len(f) THEN 0 ELSE IF f[i] = 0 THEN i ELSE ZeroFrom(f, i + 1)
Name(f, at) == LET z == ZeroFrom(f, at) IN IF z = 0 THEN Bad ELSE Got(SubSeq(f, at, z - 1), z + 1)

Face(f, at) ==
  LET n == Take(f, at, 4) k == IF n.ok THEN Num(n.v) ELSE 0
      v == IF k \in {3, 4} THEN Pieces(f, n.at, 4, 16) ELSE Bad
      fl == IF v.ok THEN Take(f, v.at, 4) ELSE Bad
      t == IF fl.ok THEN Name(f, fl.at) ELSE Bad
      m == IF t.ok THEN Name(f, t.at) ELSE Bad
  IN IF ~m.ok THEN Bad ELSE Got([verts |-> SubSeq(v.v, 1, k), flags |-> fl.v, texture |-> t.v, material |-> m.v], m.at)
RECURSIVE Faces(_, _, _, _)
Faces(f, at, n, acc) == IF n = 0 THEN Got(acc, at)
                        ELSE LET x == Face(f, at) IN IF x.ok THEN Faces(f, x.at, n - 1, Append(acc, x.v)) ELSE Bad
Tag(f, at) ==
  LET a == Take(f, at, 1)
      n == IF a.ok THEN Name(f, a.at) ELSE Bad
      s == IF n.ok THEN Take(f, n.at, 4) ELSE Bad
      k == IF s.ok THEN Num(s.v) ELSE 0
      d == IF s.ok THEN Take(f, s.at, k) ELSE Bad
  IN IF ~d.ok THEN Bad ELSE Got([name |-> n.v, data |-> d.v], d.at)
RECURSIVE Tags(_, _, _)
Tags(f, at, acc) == LET x == Tag(f, at) IN
                    IF ~x.ok THEN Bad ELSE IF x.v.name = EndName THEN Got(acc, x.at) ELSE Tags(f, x.at, Append(acc, x.v))
Lod(f, at) ==
  LET h == Take(f, at, 28)
      n(i) == Num(SubSeq(h.v, i, i + 3))
      p == IF h.ok /\ SubSeq(h.v, 1, 4) = P3DM THEN Pieces(f, h.at, n(13), 16) ELSE Bad
      o == IF p.ok THEN Pieces(f, p.at, n(17), 12) ELSE Bad
      a == IF o.ok THEN Faces(f, o.at, n(21), <<>>) ELSE Bad
      g == IF a.ok THEN Take(f, a.at, 4) ELSE Bad
      t == IF g.ok /\ g.v = TAGG THEN Tags(f, g.at, <<>>) ELSE Bad
      r == IF t.ok THEN Take(f, t.at, 4) ELSE Bad
  IN IF ~r.ok THEN Bad
     ELSE Got([major |-> SubSeq(h.v, 5, 8), minor |-> SubSeq(h.v, 9, 12), res |-> r.v,
               points |-> [i \in 1..Len(p.v) |-> [at |-> SubSeq(p.v[i], 1, 12), flags |-> SubSeq(p.v[i], 13, 16)]],
               normals |-> o.v, faces |-> a.v, tags |-> t.v], r.at)
RECURSIVE Lods(_, _, _, _)
Lods(f, at, n, acc) == IF n = 0 THEN Got(acc, at)
                       ELSE LET x == Lod(f, at) IN IF x.ok THEN Lods(f, x.at, n - 1, Append(acc, x.v)) ELSE Bad
Read(f) ==
  LET h == Take(f, 1, 12)
      l == IF h.ok /\ SubSeq(h.v, 1, 4) = MLOD THEN Lods(f, 13, Num(SubSeq(h.v, 9, 12)), <<>>) ELSE Bad
  IN IF ~l.ok THEN Bad ELSE Got([version |-> SubSeq(h.v, 5, 8), lods |-> l.v], l.at)

-----------------------------------------------------------------------------
(* names that are no text (UTF-8) *)
Follow(n, i, lo, hi) == i <= Len(n) /\ n[i] >= lo /\ n[i] <= hi
RECURSIVE Utf8(_, _)
Utf8(n, i) ==
  IF i > Len(n) THEN TRUE
  ELSE LET b == n[i] F(k) == Follow(n, k, 128, 191) IN
    IF b < 128 THEN Utf8(n, i + 1)
    ELSE IF b \in 194..223 THEN F(i + 1) /\ Utf8(n, i + 2)
    ELSE IF b \in 224..239 THEN Follow(n, i + 1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191) /\ F(i + 2) /\ Utf8(n, i + 3)
    ELSE IF b \in 240..244 THEN Follow(n, i + 1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191) /\ F(i + 2) /\ F(i + 3) /\ Utf8(n, i + 4)
    ELSE FALSE
IsText(n) == Utf8(n, 1)
AllText(m) == \A i \in 1..Len(m.lods) : LET l == m.lods[i] IN
                /\ \A j \in 1..Len(l.faces) : IsText(l.faces[j].texture) /\ IsText(l.faces[j].material)
                /\ \A j \in 1..Len(l.tags) : IsText(l.tags[j].name)
Alike(l) == \E i, j \in 1..Len(l.tags) : i # j /\ l.tags[i].name = l.tags[j].name
OneEach(m) == \A i \in 1..Len(m.lods) : ~Alike(m.lods[i])
=============================================================================
