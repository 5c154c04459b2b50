-------------------------------- MODULE Cfg --------------------------------
(* Configs. A machine reads the text one property at a time, with a stack of  *)
(* open classes; what it read is a tree of entries. The binary form is read   *)
(* by a cursor over bytes. Diagnostics about names are defined on the tree.   *)
EXTENDS Lex, Bytes, Big, FiniteSets

AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(AsciiChars, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(AsciiChars, i, i) = c]
CharBytes(c) == IF c \in Foreign2 THEN <<195, 169>> ELSE IF c \in Foreign3 THEN <<226, 130, 172>>
                ELSE IF c = "\n" THEN <<10>> ELSE IF c = "\t" THEN <<9>> ELSE <<CodeOf[c]>>
RECURSIVE TextBytesFrom(_, _, _)
TextBytesFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE TextBytesFrom(s, i + 1, acc \o CharBytes(Ch(s, i)))
TextBytes(s) == TextBytesFrom(s, 1, <<>>)

LowOf(c) == IF c \in Upper THEN SubSeq(AsciiChars, CodeOf[c] + 1, CodeOf[c] + 1) ELSE c   \* 32 further, from index code - 31
RECURSIVE LowFrom(_, _)
LowFrom(s, i) == IF i > Len(s) THEN "" ELSE LowOf(Ch(s, i)) \o LowFrom(s, i + 1)
Low(s) == LowFrom(s, 1)

----------------------------------------------------------------------------
(* The characters left when comments are gone, and where each stood           *)
RECURSIVE Spread(_, _, _)
Spread(toks, k, acc) ==
  IF k > Len(toks) THEN acc
  ELSE LET t == toks[k] IN
       Spread(toks, k + 1, IF t.k \in {"cmt", "eoi"} THEN acc
                           ELSE acc \o [i \in 1..Len(t.t) |-> [c |-> Ch(t.t, i), o |-> t.o + ByteLen(SubSeq(t.t, 1, i - 1))]])
\* s: the characters as a string, o: their offsets
CharsOf(text) == LET x == Spread(LexFile(text, "a"), 1, <<>>) IN
  [c |-> [i \in 1..Len(x) |-> x[i].c], o |-> [i \in 1..Len(x) |-> x[i].o]]

----------------------------------------------------------------------------
(* Pieces of the grammar: at position i of the characters c. A result has the *)
(* position after the piece, 0 if it is not there.                            *)
No == [i |-> 0, v |-> 0]
Yes(i, v) == [i |-> i, v |-> v]
C(c, i) == IF i <= Len(c) THEN c[i] ELSE ""
RECURSIVE Join(_, _, _)
Join(c, i, j) == IF i >= j THEN "" ELSE IF j - i = 1 THEN c[i] ELSE LET h == (i + j) \div 2 IN Join(c, i, h) \o Join(c, h, j)
Has(c, i, s) == i + Len(s) - 1 <= Len(c) /\ \A k \in 1..Len(s) : c[i + k - 1] = Ch(s, k)
RECURSIVE Ws(_, _)
Ws(c, i) == IF C(c, i) \in {" ", "\n", "\t"} THEN Ws(c, i + 1) ELSE i
IdChar == Digits \cup Lower \cup Upper \cup {"_"}
RECURSIVE IdEnd(_, _)
IdEnd(c, i) == IF C(c, i) \in IdChar THEN IdEnd(c, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(c, i) == IF C(c, i) \in Digits THEN DigEnd(c, i + 1) ELSE i
HexChar == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
RECURSIVE HexEnd(_, _)
HexEnd(c, i) == IF C(c, i) \in HexChar THEN HexEnd(c, i + 1) ELSE i
DigVal(ch) == LET k == CodeOf[ch] IN IF k < 58 THEN k - 48 ELSE IF k < 91 THEN k - 55 ELSE k - 87
DigVals(c, i, j) == [k \in 1..(j - i) |-> DigVal(c[i + k - 1])]

\* strings: quotes doubled inside; several joined by \n
RECURSIVE Quoted(_, _, _)
Quoted(c, i, acc) ==
  IF i > Len(c) THEN No
  ELSE IF c[i] # "\"" THEN Quoted(c, i + 1, acc \o c[i])
  ELSE IF C(c, i + 1) = "\"" THEN Quoted(c, i + 2, acc \o "\"") ELSE Yes(i + 1, acc)
RECURSIVE NoBreaks(_, _)
NoBreaks(s, i) == IF i > Len(s) THEN ""
                  ELSE IF Ch(s, i) = "\\" /\ Ch(s, i + 1) = "\n" THEN NoBreaks(s, i + 2)
                  ELSE Ch(s, i) \o NoBreaks(s, i + 1)
RECURSIVE Segments(_, _, _)
Segments(c, i, acc) ==
  LET q == Quoted(c, i + 1, "") IN
  IF q.i = 0 THEN No
  ELSE LET j == Ws(c, q.i) k == Ws(c, j + 2) IN
       IF Has(c, j, "\\n") /\ C(c, k) = "\"" /\ Quoted(c, k + 1, "").i # 0 THEN Segments(c, k, acc \o q.v \o "\n")
       ELSE Yes(q.i, [t |-> "s", s |-> NoBreaks(acc \o q.v, 1)])
Str(c, i) == IF C(c, i) = "\"" THEN Segments(c, i, "") ELSE No

\* numbers: sign, magnitude d and exponent e; kind "int" or "dec"
Num(neg, kind, d, e) == [t |-> "n", neg |-> neg, kind |-> kind, d |-> d, e |-> e]
MaxI64 == <<255, 255, 255, 255, 255, 255, 255, 127>>
ExpVal(c, i, j) == LET d == FromDigits(DigVals(c, i, j), 10, <<>>) IN IF Len(d) > 2 THEN 60000 ELSE Dig(d, 1) + 256 * Dig(d, 2)
Cap(n) == IF n > 60 THEN 60 ELSE IF n < -60 THEN -60 ELSE n
Number(c, i) ==
  LET s == IF C(c, i) = "-" THEN i + 1 ELSE i
      neg == s > i
      a == DigEnd(c, s)
      dot == C(c, a) = "."
      b == IF dot THEN DigEnd(c, a + 1) ELSE a
      frac == b > a + 1
      digs == DigVals(c, s, a) \o (IF frac THEN DigVals(c, a + 1, b) ELSE <<>>)
      d == FromDigits(digs, 10, <<>>)
      \* exponent form
      hasE == a > s /\ (~dot \/ frac) /\ C(c, b) \in {"e", "E"}
      sg == IF C(c, b + 1) \in {"+", "-"} THEN b + 2 ELSE b + 1
      x == DigEnd(c, sg)
      h == HexEnd(c, s + 2)
      hd == FromDigits(DigVals(c, s + 2, h), 16, <<>>)
      fl == IF frac THEN b - a - 1 ELSE 0
  IN
  IF hasE /\ x > sg THEN Yes(x, Num(neg, "dec", d, Cap((IF C(c, b + 1) = "-" THEN -ExpVal(c, sg, x) ELSE ExpVal(c, sg, x))) - fl))
  ELSE IF frac THEN Yes(b, Num(neg, "dec", d, -fl))
  ELSE IF Has(c, s, "0x") /\ h > s + 2 /\ Le(hd, MaxI64) THEN Yes(h, Num(neg, "int", hd, 0))
  ELSE IF a > s /\ Le(d, MaxI64) THEN Yes(a, Num(neg, "int", d, 0))
  ELSE No

\* arithmetic: the longest run of numbers, operators, brackets and spaces
Ops == {"-", "+", "*", "/", "%", "^", "(", ")"}
RECURSIVE Run(_, _, _)
Run(c, i, toks) ==
  LET n == Number(c, i) IN
  IF n.i # 0 THEN Run(c, n.i, Append(toks, n.v))
  ELSE IF C(c, i) \in Ops THEN Run(c, i + 1, Append(toks, [t |-> "o", o |-> c[i]]))
  ELSE IF C(c, i) = " " THEN Run(c, i + 1, toks)
  ELSE [i |-> i, toks |-> toks]
\* operands and operators alternate and brackets match; a sign after an operand is an operator
RECURSIVE Alternate(_, _, _, _, _)
Alternate(toks, k, operand, depth, acc) ==
  IF k > Len(toks) THEN (IF operand \/ depth # 0 THEN <<>> ELSE acc)
  ELSE LET t == toks[k] IN
  IF t.t = "n" THEN
    IF operand THEN Alternate(toks, k + 1, FALSE, depth, Append(acc, t))
    ELSE IF t.neg THEN Alternate(toks, k + 1, FALSE, depth, acc \o <<[t |-> "o", o |-> "-"], [t EXCEPT !.neg = FALSE]>>)
    ELSE <<>>
  ELSE IF t.o = "(" THEN IF operand THEN Alternate(toks, k + 1, TRUE, depth + 1, Append(acc, t)) ELSE <<>>
  ELSE IF t.o = ")" THEN IF ~operand /\ depth > 0 THEN Alternate(toks, k + 1, FALSE, depth - 1, Append(acc, t)) ELSE <<>>
  ELSE IF operand THEN <<>> ELSE Alternate(toks, k + 1, TRUE, depth, Append(acc, t))
\* value of an alternating sequence, in small integers; any = outside those
Unknown == [any |-> TRUE, v |-> 0]
Small(n) == IF n > 30000 \/ n < -30000 THEN Unknown ELSE [any |-> FALSE, v |-> n]
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE LET p == PowI(a, n - 1) IN IF p > 30000 \/ p < -30000 THEN 40000 ELSE a * p
Apply(o, x, y) ==
  IF x.any \/ y.any THEN Unknown
  ELSE CASE o = "+" -> Small(x.v + y.v) [] o = "-" -> Small(x.v - y.v)
         [] o = "*" -> Small(x.v * y.v)
         [] o = "/" -> (IF y.v > 0 /\ x.v >= 0 /\ x.v % y.v = 0 THEN Small(x.v \div y.v) ELSE Unknown)
         [] o = "%" -> (IF y.v > 0 /\ x.v >= 0 THEN Small(x.v % y.v) ELSE Unknown)
         [] o = "^" -> (IF y.v >= 0 /\ y.v <= 20 /\ x.v >= -200 /\ x.v <= 200 THEN Small(PowI(x.v, y.v)) ELSE Unknown)
OperandOf(t) == IF t.kind = "int" /\ Len(t.d) <= 2 THEN Small((Dig(t.d, 1) + 256 * Dig(t.d, 2)) * (IF t.neg THEN -1 ELSE 1)) ELSE Unknown
Prec(o) == CASE o \in {"+", "-"} -> 1 [] o \in {"*", "/", "%"} -> 2 [] o = "^" -> 3 [] OTHER -> 0
RECURSIVE Expr(_, _, _)
\* precedence climbing: [k: next token, v: value]
Expr(ts, k, min) ==
  LET RECURSIVE Loop(_)
      first == IF ts[k].t = "n" THEN [k |-> k + 1, v |-> OperandOf(ts[k])]
               ELSE LET r == Expr(ts, k + 1, 1) IN [k |-> r.k + 1, v |-> r.v]
      Loop(x) == IF x.k > Len(ts) \/ ts[x.k].t # "o" \/ Prec(ts[x.k].o) < min THEN x
                 ELSE LET o == ts[x.k].o
                          r == Expr(ts, x.k + 1, IF o = "^" THEN Prec(o) ELSE Prec(o) + 1)
                      IN Loop([k |-> r.k, v |-> Apply(o, x.v, r.v)])
  IN Loop(first)
Math(c, i) ==
  LET r == Run(c, i, <<>>)
      alt == IF Len(r.toks) < 2 \/ \E k \in 1..Len(r.toks) : r.toks[k].t = "n" /\ Huge32(r.toks[k].d, r.toks[k].e) THEN <<>>
             ELSE Alternate(r.toks, 1, TRUE, 0, <<>>)
  IN IF alt = <<>> THEN No
     ELSE LET x == Expr(alt, 1, 1).v IN
          Yes(r.i, IF x.any THEN [t |-> "m", any |-> TRUE, v |-> 0] ELSE [t |-> "m", any |-> FALSE, v |-> x.v])

\* __EVAL(...) kept as text
RECURSIVE Group(_, _)
Group(c, i) ==      \* position after the bracket that closes the one at i
  LET RECURSIVE Parts(_)
      Parts(j) == IF j > Len(c) THEN 0
                  ELSE IF c[j] = ")" THEN (IF j = i + 1 THEN 0 ELSE j + 1)
                  ELSE IF c[j] = "(" THEN LET g == Group(c, j) IN IF g = 0 THEN 0 ELSE Parts(g)
                  ELSE Parts(j + 1)
  IN Parts(i + 1)
EvalText(c, i) ==
  IF Has(c, i, "__EVAL(") THEN
    LET g == Group(c, i + 6) IN IF g = 0 THEN No ELSE Yes(g, [t |-> "e", s |-> Join(c, i + 7, g - 1)])
  ELSE No

First(a, b) == IF a.i # 0 THEN a ELSE b
Scalar(c, i) == LET s == Str(c, i) IN IF s.i # 0 THEN s ELSE LET m == Math(c, i) IN IF m.i # 0 THEN m ELSE Number(c, i)
Value(c, i) == LET e == EvalText(c, i) IN IF e.i # 0 THEN e ELSE Scalar(c, i)

RECURSIVE Array(_, _)
Array(c, i) ==
  LET RECURSIVE Items(_, _)
      Items(j, acc) ==
        IF C(c, j) = "}" THEN Yes(Ws(c, j + 1), acc)
        ELSE LET sub == IF C(c, j) = "{" THEN Array(c, j) ELSE No
                 x == IF sub.i # 0 THEN Yes(sub.i, [t |-> "a", v |-> sub.v]) ELSE Scalar(c, j)
                 k == Ws(c, x.i) IN
             IF x.i = 0 THEN No
             ELSE IF C(c, k) = "," THEN Items(Ws(c, k + 1), Append(acc, x.v))
             ELSE IF C(c, k) = "}" THEN Yes(Ws(c, k + 1), Append(acc, x.v)) ELSE No
  IN IF C(c, i) = "{" THEN Items(Ws(c, i + 1), <<>>) ELSE No

----------------------------------------------------------------------------
(* The machine: x = [i, st, ph]; st: open classes, the file first. An entry   *)
(* has k kind, n name, o where the name stands, p parent, po where it stands. *)
Entry(k, n, o, p, po, v, e) == [k |-> k, n |-> n, o |-> o, p |-> p, po |-> po, v |-> v, e |-> e]
Frame(n, o, p, po) == [n |-> n, o |-> o, p |-> p, po |-> po, e |-> <<>>]
ParseStart == [i |-> 1, st |-> <<Frame("", 0, "", 0)>>, ph |-> "read"]
Bad(x) == [x EXCEPT !.ph = "bad"]
Add(x, i, ent) == [x EXCEPT !.i = i, !.st[Len(x.st)].e = Append(@, ent)]
\* the entry, if a semicolon follows
Ended(c, x, j, ent) == LET k == Ws(c, j) IN IF C(c, k) = ";" THEN Add(x, k + 1, ent) ELSE Bad(x)
Assign(c, x, i) ==
  LET j == IdEnd(c, i)
      n == Join(c, i, j)
      k == Ws(c, j)
      m == Ws(c, k + 2)
      plus == Has(c, m, "+=")
      arr == Array(c, Ws(c, IF plus THEN m + 2 ELSE m + 1))
      val == Value(c, Ws(c, k + 1))
      ent(kind, v) == Entry(kind, n, i, "", 0, v, <<>>)
  IN IF j = i THEN Bad(x)
     ELSE IF Has(c, k, "[]") THEN
       IF (plus \/ C(c, m) = "=") /\ arr.i # 0 THEN Ended(c, x, arr.i, ent(IF plus THEN "add" ELSE "arr", arr.v)) ELSE Bad(x)
     ELSE IF C(c, k) = "=" /\ val.i # 0 THEN Ended(c, x, val.i, ent("val", val.v)) ELSE Bad(x)
ParseStep(c, x) ==
  LET i == Ws(c, x.i)
      top == x.st[Len(x.st)]
      a == Ws(c, i + 6)          \* after "class "
      b == IdEnd(c, a)
      d == Ws(c, b)
      pa == Ws(c, d + 1)
      pb == IdEnd(c, pa)
      pd == Ws(c, pb)
      n == Join(c, a, b)
      da == Ws(c, i + 7)         \* after "delete "
      db == IdEnd(c, da)
  IN
  IF i > Len(c) THEN IF Len(x.st) = 1 THEN [x EXCEPT !.i = i, !.ph = "ok"] ELSE Bad(x)
  ELSE IF C(c, i) = "}" THEN
    IF Len(x.st) = 1 THEN Bad(x)
    ELSE Ended(c, [x EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], i + 1, Entry("class", top.n, top.o, top.p, top.po, 0, top.e))
  ELSE IF Has(c, i, "class ") /\ b > a THEN
    IF C(c, d) = "{" THEN [x EXCEPT !.i = d + 1, !.st = Append(@, Frame(n, a, "", 0))]
    ELSE IF C(c, d) = ":" THEN
      IF pb > pa /\ C(c, pd) = "{" THEN [x EXCEPT !.i = pd + 1, !.st = Append(@, Frame(n, a, Join(c, pa, pb), pa))] ELSE Bad(x)
    ELSE Ended(c, x, d, Entry("ext", n, a, "", 0, 0, <<>>))
  ELSE IF Has(c, i, "delete ") /\ db > da THEN Ended(c, x, db, Entry("del", Join(c, da, db), da, "", 0, 0, <<>>))
  ELSE Assign(c, x, i)

RECURSIVE ParseAll(_, _)
ParseAll(c, x) == IF x.ph # "read" THEN x ELSE ParseAll(c, ParseStep(c, x))
Tree(x) == x.st[1].e

----------------------------------------------------------------------------
(* Names: the declarations in the order of the text. path: names of the       *)
(* enclosing classes, ignoring case; sid: which class body it stands in.      *)
RECURSIVE FlatFrom(_, _, _, _)
FlatFrom(es, k, path, sid) ==
  IF k > Len(es) THEN <<>>
  ELSE LET e == es[k]
           d == [k |-> e.k, n |-> e.n, l |-> Low(e.n), o |-> e.o, p |-> e.p, lp |-> Low(e.p), po |-> e.po, path |-> path, sid |-> sid]
       IN <<d>> \o (IF e.k = "class" THEN FlatFrom(e.e, 1, Append(path, d.l), e.o) ELSE <<>>) \o FlatFrom(es, k + 1, path, sid)
Flat(es) == FlatFrom(es, 1, <<>>, 0)

IsProp(k) == k \in {"val", "arr", "add"}
Declares(k) == k \in {"class", "ext"}
\* two declarations of one body with the same name, not all classes (bodies of the
\* same class written twice count as one)
C02(F) ==
  LET K == {i \in 1..Len(F) : F[i].k = "class" \/ IsProp(F[i].k)}
      G(i) == {j \in K : F[j].l = F[i].l /\ F[j].path = F[i].path}
  IN {[id |-> "L-C02", at |-> {F[j].o : j \in G(i)}] : i \in {i \in K : IsProp(F[i].k) /\ Cardinality(G(i)) > 1}}
C03(F) ==
  LET K == {i \in 1..Len(F) : Declares(F[i].k)}
      G(i) == {j \in K : F[j].l = F[i].l /\ F[j].sid = F[i].sid}
  IN {[id |-> "L-C03", at |-> {F[j].o : j \in G(i)}] : i \in {i \in K : Cardinality(G(i)) > 1}}
\* declared anywhere before
Before4(F, i) == {j \in 1..(i - 1) : Declares(F[j].k) /\ F[j].l = F[i].lp}
C04(F) == {[id |-> "L-C04", at |-> {F[i].po}] : i \in {i \in 1..Len(F) : F[i].k = "class" /\ F[i].p # "" /\ F[i].lp # F[i].l /\ Before4(F, i) = {}}}
\* spelled differently; where earlier declarations differ among themselves either answer is right
C05Sure(F, i) == IF F[i].lp = F[i].l THEN F[i].p # F[i].n
                 ELSE Before4(F, i) # {} /\ \A j \in Before4(F, i) : F[j].n # F[i].p
C05Maybe(F, i) == C05Sure(F, i) \/ (F[i].lp # F[i].l /\ \E j \in Before4(F, i) : F[j].n # F[i].p)
WithParent(F) == {i \in 1..Len(F) : F[i].k = "class" /\ F[i].p # ""}

----------------------------------------------------------------------------
(* The binary form: [i: position after it, 0 if it is not well-formed]        *)
Need(b, i, n) == i >= 1 /\ i + n - 1 <= Len(b)
DStr(b, i) == LET z == IF i > Len(b) THEN 0 ELSE ZeroAt(b, i) IN IF z = 0 THEN No ELSE Yes(z + 1, SubSeq(b, i, z - 1))
RECURSIVE DCompFrom(_, _, _, _)
DCompFrom(b, i, mul, acc) ==
  IF ~Need(b, i, 1) \/ mul > 2097152 THEN No
  ELSE IF b[i] < 128 THEN Yes(i + 1, acc + mul * b[i])
  ELSE DCompFrom(b, i + 1, mul * 128, acc + mul * (b[i] - 128))
DComp(b, i) == DCompFrom(b, i, 1, 0)
RECURSIVE DVal(_, _, _)
DVal(b, code, i) ==
  LET RECURSIVE Items(_, _, _)
      Items(j, n, acc) == IF n = 0 THEN Yes(j, acc)
                          ELSE IF ~Need(b, j, 1) THEN No
                          ELSE LET x == DVal(b, b[j], j + 1) IN IF x.i = 0 THEN No ELSE Items(x.i, n - 1, Append(acc, x.v))
      fix(t, n) == IF Need(b, i, n) THEN Yes(i + n, [t |-> t, b |-> SubSeq(b, i, i + n - 1)]) ELSE No
  IN CASE code = 0 -> (LET s == DStr(b, i) IN IF s.i = 0 THEN No ELSE Yes(s.i, [t |-> "s", b |-> s.v]))
       [] code = 4 -> (LET s == DStr(b, i) IN IF s.i = 0 THEN No ELSE Yes(s.i, [t |-> "e", b |-> s.v]))
       [] code = 1 -> fix("f", 4) [] code = 2 -> fix("i", 4) [] code = 6 -> fix("i", 8)
       [] code = 3 -> (LET n == DComp(b, i) IN IF n.i = 0 THEN No
                       ELSE LET x == Items(n.i, n.v, <<>>) IN IF x.i = 0 THEN No ELSE Yes(x.i, [t |-> "a", v |-> x.v]))
       [] OTHER -> No
DEntry(k, n, v, at) == [k |-> k, n |-> n, v |-> v, at |-> at, p |-> <<>>, e |-> <<>>]
RECURSIVE DEntries(_, _, _, _)
DEntries(b, i, n, acc) ==
  IF n = 0 THEN Yes(i, acc)
  ELSE IF ~Need(b, i, 1) THEN No
  ELSE LET code == b[i]
           s == IF code = 1 THEN DStr(b, i + 2) ELSE IF code = 5 THEN DStr(b, i + 5) ELSE DStr(b, i + 1)
       IN IF s.i = 0 THEN No
          ELSE CASE code = 0 -> (IF Need(b, s.i, 4) THEN DEntries(b, s.i + 4, n - 1, Append(acc, DEntry("class", s.v, 0, Num32(b, s.i)))) ELSE No)
                 [] code = 3 -> DEntries(b, s.i, n - 1, Append(acc, DEntry("ext", s.v, 0, 0)))
                 [] code = 4 -> DEntries(b, s.i, n - 1, Append(acc, DEntry("del", s.v, 0, 0)))
                 [] code = 1 -> (LET x == IF b[i + 1] = 3 THEN No ELSE DVal(b, b[i + 1], s.i) IN
                                 IF x.i = 0 THEN No ELSE DEntries(b, x.i, n - 1, Append(acc, DEntry("val", s.v, x.v, 0))))
                 [] code = 2 -> (LET x == DVal(b, 3, s.i) IN IF x.i = 0 THEN No ELSE DEntries(b, x.i, n - 1, Append(acc, DEntry("arr", s.v, x.v.v, 0))))
                 [] code = 5 -> (LET x == IF SubSeq(b, i + 1, i + 4) = <<1, 0, 0, 0>> THEN DVal(b, 3, s.i) ELSE No IN
                                 IF x.i = 0 THEN No ELSE DEntries(b, x.i, n - 1, Append(acc, DEntry("add", s.v, x.v.v, 0))))
                 [] OTHER -> No
\* a class body at i: parent, entries, the position after it; then the bodies of its
\* classes, one after the other, each where its entry says
RECURSIVE DBody(_, _)
DBody(b, i) ==
  LET p == DStr(b, i)
      n == IF p.i = 0 THEN No ELSE DComp(b, p.i)
      es == IF n.i = 0 THEN No ELSE DEntries(b, n.i, n.v, <<>>)
      RECURSIVE Fill(_, _, _)
      Fill(k, j, acc) ==
        IF k > Len(es.v) THEN Yes(j, acc)
        ELSE IF es.v[k].k # "class" THEN Fill(k + 1, j, Append(acc, es.v[k]))
        ELSE LET x == IF es.v[k].at = j - 1 THEN DBody(b, j) ELSE No IN
             IF x.i = 0 THEN No ELSE Fill(k + 1, x.i, Append(acc, [es.v[k] EXCEPT !.p = x.v.p, !.e = x.v.e]))
      r == IF es.i = 0 \/ ~Need(b, es.i, 4) THEN No ELSE Fill(1, es.i + 4, <<>>)
  IN IF r.i = 0 THEN No
     ELSE IF Num32(b, es.i) # r.i - 1 THEN No
     ELSE Yes(r.i, [p |-> p.v, e |-> r.v])
Magic == <<0, 114, 97, 80, 0, 0, 0, 0, 8, 0, 0, 0>>
\* entries of a whole file; i = 0 if it is none
DecodeCfg(b) ==
  IF ~Need(b, 1, 16) \/ SubSeq(b, 1, 12) # Magic THEN No
  ELSE LET x == DBody(b, 17) IN
       IF x.i = 0 \/ x.v.p # <<>> \/ Num32(b, 13) # x.i - 1 \/ SubSeq(b, x.i, Len(b)) # <<0, 0, 0, 0>> THEN No ELSE Yes(x.i, x.v.e)

----------------------------------------------------------------------------
(* Does a decoded value or tree say the same as the text?                     *)
RECURSIVE SameVal(_, _)
SameVal(s, d) ==
  CASE s.t = "s" -> d.t = "s" /\ d.b = TextBytes(s.s)
    [] s.t = "e" -> d.t = "e" /\ d.b = TextBytes(s.s)
    [] s.t = "n" -> (IF s.kind = "int" THEN d.t = "i" /\ SignedMag(d.b) = s.d /\ (s.d # <<>> => SignedNeg(d.b) = s.neg)
                     ELSE d.t = "f" /\ FloatOk(d.b, s.neg, s.d, s.e))
    [] s.t = "m" -> (d.t \in {"i", "f"}
                     /\ (~s.any => LET neg == s.v < 0 mag == FromInt(IF neg THEN -s.v ELSE s.v) IN
                          IF d.t = "i" THEN SignedMag(d.b) = mag /\ (mag # <<>> => SignedNeg(d.b) = neg) ELSE FloatOk(d.b, neg, mag, 0)))
    [] s.t = "a" -> d.t = "a" /\ Len(d.v) = Len(s.v) /\ \A i \in 1..Len(s.v) : SameVal(s.v[i], d.v[i])
RECURSIVE SameTree(_, _)
SameTree(ss, ds) ==
  /\ Len(ss) = Len(ds)
  /\ \A i \in 1..Len(ss) :
       LET s == ss[i] d == ds[i] IN
       /\ s.k = d.k /\ d.n = TextBytes(s.n)
       /\ s.k = "class" => d.p = TextBytes(s.p) /\ SameTree(s.e, d.e)
       /\ s.k = "val" => SameVal(s.v, d.v)
       /\ s.k \in {"arr", "add"} => Len(s.v) = Len(d.v) /\ \A j \in 1..Len(s.v) : SameVal(s.v[j], d.v[j])
=============================================================================
