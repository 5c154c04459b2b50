------------------------------- MODULE TracePaa -------------------------------
(* Recorded readings and writings of texture containers. Case.kind "read":    *)
(* format, tags and mip maps; "image": the picture of the first mip map;      *)
(* "write": a picture was written, into a place that fails behind cap bytes   *)
(* when cap is given.                                                         *)
EXTENDS Paa, Json, IOUtils, TLC
Z == INSTANCE Lzo
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O
Err(o) == "err" \in DOMAIN o
Set(q) == {q[i] : i \in 1..Len(q)}

ReadVerdict ==
  LET r == Read(Case.file) IN
  IF r.ok /\ ~OneEach(r.v.tags) THEN "domain"
  ELSE IF Broken THEN "bad"
  ELSE IF ~r.ok THEN (IF Err(O) THEN "ok" ELSE "bad")
  ELSE IF Err(O) THEN "bad"
  ELSE IF /\ O.format = r.v.format
          /\ Len(O.tags) = Len(r.v.tags) /\ Set(O.tags) = Set(r.v.tags)
          /\ Len(O.maps) = Len(r.v.maps)
          /\ \A i \in 1..Len(O.maps) : O.maps[i] = r.v.maps[i] @@ [format |-> Packing[r.v.format]]
       THEN "ok" ELSE "bad"

\* what a packed mip map holds
RECURSIVE Unpacked(_, _, _, _)
Copied(out, d, n) == LET from == Len(out) - d IN out \o [i \in 1..n |-> out[from + ((i - 1) % d) + 1]]
Unpacked(s, b, cap, out) ==
  IF s.res # "run" THEN [ok |-> s.res = "end", data |-> out]
  ELSE LET r == Z!Decode(s, b, cap) m == r.ins IN
       IF r.s.res = "err" THEN [ok |-> FALSE]
       ELSE LET a == out \o (IF m.lit = 0 THEN <<>> ELSE SubSeq(b, m.from, m.from + m.lit - 1))
                e == IF m.len = 0 THEN a ELSE Copied(a, m.dist, m.len)
                t == IF m.tail = 0 THEN e ELSE e \o SubSeq(b, m.at, m.at + m.tail - 1)
            IN Unpacked(r.s, b, cap, t)
ImageVerdict ==
  LET r == Read(Case.file)
      m == r.v.maps[1]
      p == Packing[r.v.format]
      n == DataSize(p, m.w, m.h)
      u == IF m.packed THEN Unpacked(Z!Start, m.data, n, <<>>) ELSE [ok |-> TRUE, data |-> m.data]
  IN IF ~r.ok THEN "domain"
     ELSE IF r.v.maps = <<>> THEN "domain"
     ELSE IF m.w = 0 \/ m.h = 0 THEN "domain"
     ELSE IF ~u.ok THEN "domain"
     ELSE IF Len(u.data) # n THEN "domain"
     ELSE IF Broken \/ Err(O) THEN "bad"
     ELSE LET px == Picture(p, u.data, m.w, m.h) IN
          IF O.w = m.w /\ O.h = m.h /\ Len(O.px) = 4 * m.w * m.h
             /\ \A i \in 1..Len(px) : SubSeq(O.px, 4 * i - 3, 4 * i) = px[i]
          THEN "ok" ELSE "bad"

\* a picture that is one colour throughout is given as that
W == Case.w
H == Case.h
Off(a, b) == IF a < b THEN b - a ELSE a - b
Near(px, got) ==
  \A by \in 0..Up(H) - 1, bx \in 0..Up(W) - 1 :
    LET S == {(4 * by + y) * W + 4 * bx + x + 1 : <<x, y>> \in {q \in (0..3) \X (0..3) : 4 * bx + q[1] < W /\ 4 * by + q[2] < H}}
        A == {px[i][4] : i \in S}
        range == (CHOOSE a \in A : \A b \in A : b <= a) - (CHOOSE a \in A : \A b \in A : a <= b)
    IN /\ Cardinality({SubSeq(px[i], 1, 3) : i \in S}) = 1 => \A i \in S : \A ch \in 1..3 : Off(px[i][ch], got[i][ch]) <= 4
       /\ \A i \in S : Off(px[i][4], got[i][4]) <= (IF range = 0 THEN 1 ELSE (range * 2) \div 7 + 4)
WriteVerdict ==
  LET px == IF "fill" \in DOMAIN Case THEN <<Case.fill>> ELSE [i \in 1..W * H |-> SubSeq(Case.px, 4 * i - 3, 4 * i)]
      r == Read(O.file)
      m == r.v.maps[1]
      ts == r.v.tags
      Says(n, v) == \E t \in Set(ts) : t.name = n /\ t.data = v
  IN IF W = 0 \/ H = 0 THEN "domain"
     ELSE IF Broken THEN "bad"
     ELSE IF ~Writable(W, H) THEN (IF Err(O) THEN "ok" ELSE "bad")
     ELSE IF Err(O) THEN (IF "cap" \in DOMAIN Case /\ Case.cap < DataSize("Bc3", W, H) + 200 THEN "ok" ELSE "bad")
     ELSE IF ~r.ok THEN "bad"
     ELSE IF /\ r.v.format = "DXT5" /\ Len(r.v.maps) = 1 /\ OneEach(ts)
             /\ m.w = W /\ m.h = H /\ ~m.packed /\ Len(m.data) = DataSize("Bc3", W, H)
             /\ Says(CGVA, Average(px)) /\ Says(CXAM, Largest(px))
             /\ "fill" \in DOMAIN Case \/ Near(px, Picture("Bc3", m.data, W, H))
          THEN "ok" ELSE "bad"
Verdict == IF Case.kind = "read" THEN ReadVerdict ELSE IF Case.kind = "image" THEN ImageVerdict ELSE WriteVerdict
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson([i |-> c, v |-> Verdict]))
=============================================================================
