------------------------------- MODULE MCCfg -------------------------------
(* Families of configs, explored completely. Trees are built an entry at a    *)
(* time, written down, and read again by the machine of Cfg; token sequences  *)
(* are compared with what the grammar derives; names with tables kept while   *)
(* declaring.                                                                 *)
EXTENDS Cfg, Json

CONSTANTS MaxOps, MaxToks,
          Parents     \* names used as parents in the trees of names
VARIABLES kind, ops, st, text, tab
vars == <<kind, ops, st, text, tab>>

CharsAt(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Parsed(s) == ParseAll(CharsAt(s), ParseStart)
Top == st[Len(st)]
Closed == Len(st) = 1
Push(e, t) == st' = [st EXCEPT ![Len(st)].e = Append(@, e)] /\ text' = text \o t

----------------------------------------------------------------------------
(* Trees of values                                                            *)
Vs == {
  [t |-> "\"a\"\"\"", v |-> [t |-> "s", s |-> "a\""], c |-> 0, b |-> <<97, 34, 0>>],
  [t |-> "\"~\"", v |-> [t |-> "s", s |-> "~"], c |-> 0, b |-> <<195, 169, 0>>],
  [t |-> "-3", v |-> Num(TRUE, "int", <<3>>, 0), c |-> 2, b |-> <<253, 255, 255, 255>>],
  [t |-> "0x80000000", v |-> Num(FALSE, "int", <<0, 0, 0, 128>>, 0), c |-> 6, b |-> <<0, 0, 0, 128, 0, 0, 0, 0>>],
  [t |-> "-1.50", v |-> Num(TRUE, "dec", <<150>>, -2), c |-> 1, b |-> <<0, 0, 192, 191>>],
  [t |-> "2 + 1", v |-> [t |-> "m", any |-> FALSE, v |-> 3], c |-> 2, b |-> <<3, 0, 0, 0>>],
  [t |-> "__EVAL(a(b))", v |-> [t |-> "e", s |-> "a(b)"], c |-> 4, b |-> <<97, 40, 98, 41, 0>>]}
As == {
  [t |-> "{}", v |-> <<>>, b |-> <<0>>],
  [t |-> "{1, {\"x\", {}}, }", v |-> <<Num(FALSE, "int", <<1>>, 0), [t |-> "a", v |-> <<[t |-> "s", s |-> "x"], [t |-> "a", v |-> <<>>]>>]>>,
   b |-> <<2, 2, 1, 0, 0, 0, 3, 2, 0, 120, 0, 3, 0>>]}
NameNo(i) == SubSeq("abcdefgh", i, i)
Plain(k, n, v, x) == [k |-> k, n |-> n, p |-> "", v |-> v, e |-> <<>>, x |-> x]
Opened == {ops[i] : i \in {i \in 1..Len(ops) : Len(ops[i]) = 1}}       \* names of classes
Tree1 ==
  LET n == NameNo(Len(ops) + 1) IN
  \/ /\ Len(ops) < MaxOps /\ ops' = Append(ops, n \o "+")
     /\ \/ \E w \in Vs : Push(Plain("val", n, w.v, w), n \o " = " \o w.t \o ";")
        \/ \E w \in As : Push(Plain("arr", n, w.v, w), n \o "[] = " \o w.t \o ";")
        \/ \E w \in As : Push(Plain("add", n, w.v, w), n \o "[] += " \o w.t \o ";")
        \/ Push(Plain("del", n, 0, 0), "delete " \o n \o ";")
  \/ /\ Len(ops) < MaxOps /\ ops' = Append(ops, n)
     /\ \/ Push(Plain("ext", n, 0, 0), "class " \o n \o ";")
        \/ \E p \in Opened \cup {""} : /\ st' = Append(st, [n |-> n, p |-> p, e |-> <<>>])
                                       /\ text' = text \o "class " \o n \o (IF p = "" THEN " {" ELSE ": " \o p \o " {")
  \/ /\ ~Closed /\ UNCHANGED ops /\ text' = text \o "};\n"
     /\ LET up == SubSeq(st, 1, Len(st) - 1) IN
        st' = [up EXCEPT ![Len(up)].e = Append(@, [Plain("class", Top.n, 0, 0) EXCEPT !.p = Top.p, !.e = Top.e])]
Init1 == kind = "tree" /\ ops = <<>> /\ st = <<[n |-> "", p |-> "", e |-> <<>>]>> /\ text = "" /\ tab = <<>>
Next1 == Tree1 /\ UNCHANGED <<kind, tab>>

RECURSIVE Strip(_)
Strip(es) == [i \in 1..Len(es) |-> [k |-> es[i].k, n |-> es[i].n, p |-> es[i].p, v |-> es[i].v, e |-> Strip(es[i].e)]]
ParsesBack == Closed => LET x == Parsed(text) IN x.ph = "ok" /\ Strip(Tree(x)) = Strip(st[1].e)

\* the binary form, by sizes and places
RECURSIVE Comp(_)
Comp(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Comp(n \div 128)
RECURSIVE Sum(_)
Sum(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Sum(Tail(ns))
EntryLen(e) == LET n == Len(TextBytes(e.n)) + 1 IN
  CASE e.k = "class" -> 1 + n + 4 [] e.k \in {"ext", "del"} -> 1 + n
    [] e.k = "val" -> 2 + n + Len(e.x.b) [] e.k = "arr" -> 1 + n + Len(e.x.b) [] e.k = "add" -> 5 + n + Len(e.x.b)
RECURSIVE BodyLen(_, _)
Nested(es) == [i \in 1..Len(es) |-> IF es[i].k = "class" THEN BodyLen(es[i].p, es[i].e) ELSE 0]
HeadLen(p, es) == Len(TextBytes(p)) + 1 + Len(Comp(Len(es))) + Sum([i \in 1..Len(es) |-> EntryLen(es[i])]) + 4
BodyLen(p, es) == HeadLen(p, es) + Sum(Nested(es))
RECURSIVE EncBody(_, _, _)
EncBody(p, es, at) ==
  LET place(i) == at + HeadLen(p, es) + Sum(SubSeq(Nested(es), 1, i - 1))
      enc(i) == LET e == es[i] n == CStr(TextBytes(e.n)) IN
        CASE e.k = "class" -> <<0>> \o n \o U32(place(i)) [] e.k = "ext" -> <<3>> \o n [] e.k = "del" -> <<4>> \o n
          [] e.k = "val" -> <<1, e.x.c>> \o n \o e.x.b [] e.k = "arr" -> <<2>> \o n \o e.x.b
          [] e.k = "add" -> <<5, 1, 0, 0, 0>> \o n \o e.x.b
  IN CStr(TextBytes(p)) \o Comp(Len(es)) \o FlatBytes([i \in 1..Len(es) |-> enc(i)]) \o U32(at + BodyLen(p, es))
     \o FlatBytes([i \in 1..Len(es) |-> IF es[i].k = "class" THEN EncBody(es[i].p, es[i].e, place(i)) ELSE <<>>])
EncodeCfg(es) == LET b == EncBody("", es, 16) IN Magic \o U32(16 + Len(b)) \o b \o <<0, 0, 0, 0>>
\* reading the binary form gives the same tree, and nothing shorter or longer is one
DecodesBack == Closed =>
  LET b == EncodeCfg(st[1].e) d == DecodeCfg(b) IN
  /\ d.i # 0 /\ SameTree(st[1].e, d.v)
  /\ \A n \in 0..(Len(b) - 1) : DecodeCfg(SubSeq(b, 1, n)).i = 0
  /\ DecodeCfg(Append(b, 0)).i = 0
Emit1 == Closed => PrintT(ToJson([text |-> text]))

----------------------------------------------------------------------------
(* Trees of names. tab: what a compiler would keep while declaring.           *)
\* scopes: name tables by path; bodies: by class body; known: declared names
Ns == {"a", "A", "b"}
Paths == [i \in 1..(Len(st) - 1) |-> Low(st[i + 1].n)]
Sid == Top.o
Key2(n) == <<Paths, Low(n)>>
Key3(n) == <<Sid, Low(n)>>
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
Put(f, k, v) == (k :> (Get(f, k) \cup {v})) @@ f
\* declare name n of kind k, standing at o, with parent p at po
Declare(k, n, o, p, po) ==
  tab' = [tab EXCEPT
    !.scopes = IF k = "ext" THEN @ ELSE Put(@, Key2(n), [o |-> o, prop |-> IsProp(k)]),
    !.bodies = IF Declares(k) THEN Put(@, Key3(n), o) ELSE @,
    !.spelt = IF Declares(k) THEN Put(@, Low(n), n) ELSE @,
    !.missing = IF p # "" /\ Low(p) # Low(n) /\ Get(tab.spelt, Low(p)) = {} THEN @ \cup {po} ELSE @,
    !.cased = IF p = "" THEN @
              ELSE IF Low(p) = Low(n) THEN (IF p # n THEN @ \cup {po} ELSE @)
              ELSE IF Get(tab.spelt, Low(p)) # {} /\ p \notin Get(tab.spelt, Low(p)) THEN @ \cup {po} ELSE @]
At == Len(text)
Frame2(n, o, p, po) == [n |-> n, o |-> o, p |-> p, po |-> po, e |-> <<>>]
Entry2(k, n, o, p, po, e) == [k |-> k, n |-> n, o |-> o, p |-> p, po |-> po, v |-> 0, e |-> e]
Names2 == IF ops = <<>> THEN {"a"} ELSE Ns       \* the first name may as well be this one
Tree2 ==
  \/ /\ Len(ops) < MaxOps
     /\ \E n \in Names2 :
        \/ Push(Entry2("val", n, At + 1, "", 0, <<>>), n \o "=1;") /\ Declare("val", n, At + 1, "", 0) /\ ops' = Append(ops, "val")
        \/ Push(Entry2("ext", n, At + 7, "", 0, <<>>), "class " \o n \o ";") /\ Declare("ext", n, At + 7, "", 0) /\ ops' = Append(ops, "ext")
        \/ /\ st' = Append(st, Frame2(n, At + 7, "", 0)) /\ text' = text \o "class " \o n \o "{"
           /\ Declare("class", n, At + 7, "", 0) /\ ops' = Append(ops, "class")
        \/ \E p \in Parents : /\ st' = Append(st, Frame2(n, At + 7, p, At + 9)) /\ text' = text \o "class " \o n \o ":" \o p \o "{"
                         /\ Declare("class", n, At + 7, p, At + 9) /\ ops' = Append(ops, "class")
  \/ /\ ~Closed /\ UNCHANGED <<ops, tab>> /\ text' = text \o "};"
     /\ LET up == SubSeq(st, 1, Len(st) - 1) IN
        st' = [up EXCEPT ![Len(up)].e = Append(@, Entry2("class", Top.n, Top.o, Top.p, Top.po, Top.e))]
NoTab == [x \in {} |-> {}]
Init2 == /\ kind = "names" /\ ops = <<>> /\ text = "" /\ st = <<Frame2("", 0, "", 0)>>
         /\ tab = [scopes |-> NoTab, bodies |-> NoTab, spelt |-> NoTab, missing |-> {}, cased |-> {}]
Next2 == Tree2 /\ UNCHANGED kind
Whole2 == Closed /\ ops # <<>>
F2 == Flat(st[1].e)
Same2 == Whole2 => LET x == Parsed(text) IN x.ph = "ok" /\ Flat(Tree(x)) = F2
Tables2 == Whole2 =>
  /\ C02(F2) = {[id |-> "L-C02", at |-> {x.o : x \in g}] : g \in {g \in {tab.scopes[k] : k \in DOMAIN tab.scopes} : Cardinality(g) > 1 /\ \E x \in g : x.prop}}
  /\ C03(F2) = {[id |-> "L-C03", at |-> g] : g \in {g \in {tab.bodies[k] : k \in DOMAIN tab.bodies} : Cardinality(g) > 1}}
  /\ C04(F2) = {[id |-> "L-C04", at |-> {o}] : o \in tab.missing}
  /\ {F2[i].po : i \in {i \in WithParent(F2) : C05Sure(F2, i)}} = tab.cased
Zero(S) == {[id |-> r.id, at |-> {o - 1 : o \in r.at}] : r \in S}
Emit2 == Whole2 => PrintT(ToJson([text |-> text, codes |-> Zero(C02(F2) \cup C03(F2) \cup C04(F2)),
                                  cased |-> {o - 1 : o \in tab.cased},
                                  perhaps |-> {F2[i].po - 1 : i \in {i \in WithParent(F2) : C05Maybe(F2, i)}}]))

----------------------------------------------------------------------------
(* Sequences of tokens, and what the grammar derives                          *)
RECURSIVE Strip1(_)
Strip1(s) == IF Ch(s, 1) = " " THEN Strip1(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripN(_)
StripN(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN StripN(SubSeq(s, 1, Len(s) - 1)) ELSE s
Bare(s) == StripN(Strip1(s))
All(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
Splits(s) == 1..Len(s)
Pre(s, i) == SubSeq(s, 1, i - 1)
Post(s, i) == SubSeq(s, i + 1, Len(s))
DerDigits(s) == s # "" /\ All(s, Digits)
DerDecimal(s) == \E i \in Splits(s) : Ch(s, i) = "." /\ All(Pre(s, i), Digits) /\ DerDigits(Post(s, i))
DerMantissa(s) == DerDigits(s) \/ (DerDecimal(s) /\ Ch(s, 1) # ".")
DerExponent(s) == DerDigits(s) \/ (Ch(s, 1) \in {"+", "-"} /\ DerDigits(Post(s, 1)))
DerUnsigned(s) == DerDigits(s) \/ DerDecimal(s)
                  \/ (\E i \in Splits(s) : Ch(s, i) = "e" /\ DerMantissa(Pre(s, i)) /\ DerExponent(Post(s, i)))
                  \/ (Len(s) > 2 /\ SubSeq(s, 1, 2) = "0x" /\ All(SubSeq(s, 3, Len(s)), HexChar))
DerNumber(s) == DerUnsigned(s) \/ (Ch(s, 1) = "-" /\ DerUnsigned(Post(s, 1)))
RECURSIVE Doubled(_)
Doubled(s) == s = "" \/ (Ch(s, 1) # "\"" /\ Doubled(Post(s, 1))) \/ (Len(s) > 1 /\ Ch(s, 1) = "\"" /\ Ch(s, 2) = "\"" /\ Doubled(SubSeq(s, 3, Len(s))))
DerString(s) == Len(s) > 1 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" /\ Doubled(SubSeq(s, 2, Len(s) - 1))
\* expressions by levels: sums of products of powers of atoms; none = not derived
None == [ok |-> FALSE, v |-> 0]
Some(v) == [ok |-> TRUE, v |-> v]
RECURSIVE Der(_, _)
Der(s0, level) ==
  LET s == Bare(s0)
      O == CASE level = 1 -> {"+", "-"} [] level = 2 -> {"*", "/", "%"} [] level = 3 -> {"^"} [] OTHER -> {}
      cuts == {i \in Splits(s) : Ch(s, i) \in O /\ Bare(Pre(s, i)) # "" /\ Bare(Post(s, i)) # ""}
      l(i) == Der(Pre(s, i), IF level = 3 THEN 4 ELSE level)
      r(i) == Der(Post(s, i), IF level = 3 THEN 3 ELSE level + 1)
      good == {i \in cuts : l(i).ok /\ r(i).ok}
  IN IF level = 4 THEN
       IF DerNumber(s) THEN Some(OperandOf(Number(CharsAt(s), 1).v))
       ELSE IF Len(s) > 2 /\ Ch(s, 1) = "(" /\ Ch(s, Len(s)) = ")" THEN Der(SubSeq(s, 2, Len(s) - 1), 1) ELSE None
     ELSE IF good # {} THEN LET i == CHOOSE i \in good : TRUE IN Some(Apply(Ch(s, i), l(i).v, r(i).v))
     ELSE Der(s, level + 1)
DerScalar(s) == DerString(Bare(s)) \/ Der(s, 1).ok
RECURSIVE DerItems(_)
DerItem(s0) == LET s == Bare(s0) IN DerScalar(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "{" /\ Ch(s, Len(s)) = "}" /\ DerItems(SubSeq(s, 2, Len(s) - 1)))
DerItems(s) == Bare(s) = "" \/ DerItem(s) \/ \E i \in Splits(s) : Ch(s, i) = "," /\ DerItem(Pre(s, i)) /\ DerItems(Post(s, i))
DerArray(s0) == LET s == Bare(s0) IN Len(s) > 1 /\ Ch(s, 1) = "{" /\ Ch(s, Len(s)) = "}" /\ DerItems(SubSeq(s, 2, Len(s) - 1))
Ident(s) == s # "" /\ All(s, IdChar)
Name(s) == Ident(Bare(s))
Kw(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
RECURSIVE DerBody(_)
\* an entry without its semicolon
DerEntry(s0) ==
  LET s == Bare(s0)
      c == SubSeq(s, 7, Len(s))
      d == SubSeq(s, 8, Len(s))
  IN \/ Kw(s, "delete ") /\ Name(d)
     \/ Kw(s, "class ") /\ Name(c)
     \/ /\ Kw(s, "class ") /\ Ch(s, Len(s)) = "}"
        /\ \E i \in Splits(c) : Ch(c, i) = "{" /\ DerBody(SubSeq(c, i + 1, Len(c) - 1))
             /\ LET h == Pre(c, i) IN Name(h) \/ \E j \in Splits(h) : Ch(h, j) = ":" /\ Name(Pre(h, j)) /\ Name(Post(h, j))
     \/ \E i \in Splits(s) : Ch(s, i) = "=" /\ Name(Pre(s, i)) /\ DerScalar(Post(s, i))
     \/ \E i \in Splits(s) : Ch(s, i) = "=" /\ DerArray(Post(s, i))
          /\ LET l == Bare(Pre(s, i)) m == IF l # "" /\ Ch(l, Len(l)) = "+" THEN Bare(Pre(l, Len(l))) ELSE l IN
             Len(m) > 2 /\ SubSeq(m, Len(m) - 1, Len(m)) = "[]" /\ Name(SubSeq(m, 1, Len(m) - 2))
             /\ (l = m \/ l = SubSeq(l, 1, Len(l) - 1) \o "+")
DerBody(s) == Bare(s) = "" \/ \E i \in Splits(s) : Ch(s, i) = ";" /\ DerEntry(Pre(s, i)) /\ DerBody(Post(s, i))

Alphabet ==
  CASE kind = "value" -> {"1", "0", ".", "e", "x", "-", "+", "*", "^", "(", ")", " ", "\""}
    [] kind = "array" -> {"1", "\"s\"", "{", "}", ",", " ", "-", "x", "+"}
    [] kind = "entry" -> {"class ", "delete ", "x", "{", "}", ":", ";", "=", "1", "[]", "+", " ", "{}"}
Wrap(s) == CASE kind = "value" -> "q=" \o s \o ";" [] kind = "array" -> "q[]={" \o s \o "};" [] kind = "entry" -> "class a{" \o s \o "};"
Init3(k) == kind = k /\ ops = <<>> /\ st = <<>> /\ text = "" /\ tab = <<>>
Init3V == Init3("value")
Init3A == Init3("array")
Init3E == Init3("entry")
Next3 == Len(ops) < MaxToks /\ \E t \in Alphabet : ops' = Append(ops, t) /\ text' = text \o t /\ UNCHANGED <<kind, st, tab>>
P3 == Parsed(Wrap(text))
Derived == DerBody(Wrap(text))
Accepts3 == (P3.ph = "ok") = Derived
\* expressions mean what their levels say
Means3 == kind = "value" /\ P3.ph = "ok" /\ Tree(P3)[1].v.t = "m" =>
            LET v == Tree(P3)[1].v d == Der(text, 1) IN d.ok /\ v.any = d.v.any /\ (~v.any => v.v = d.v.v)
Emit3 == PrintT(ToJson([text |-> Wrap(text), ok |-> Derived]))
=============================================================================
