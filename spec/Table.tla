-------------------------------- MODULE Table --------------------------------
(* Stringtables: what the lines of a file say, the table they make, what      *)
(* sorting does to it, how it is written back, its totals, and its lint.      *)
(* A node is a project, package, container, key, or a translation:            *)
(*   [tag, attr, text, before, end, kids]                                     *)
(* before: the comment in front of its first line; end: the one in front of   *)
(* its closing line. The file is [doc, after]: after, the comment at its end. *)
EXTENDS Str, FiniteSets, TLC

Languages == <<"Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese",
               "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch">>
Place == [l \in {Languages[i] : i \in 1..24} |-> CHOOSE i \in 1..24 : Languages[i] = l]
IsLanguage(t) == t \in DOMAIN Place
\* a name may be given in lower or in upper case
Lower == <<"original", "english", "czech", "french", "spanish", "italian", "polish", "portuguese", "russian", "german", "korean", "japanese",
           "chinese", "chinesesimp", "turkish", "swedish", "slovak", "serbocroatian", "norwegian", "icelandic", "hungarian", "greek", "finnish", "dutch">>
Upper == <<"ORIGINAL", "ENGLISH", "CZECH", "FRENCH", "SPANISH", "ITALIAN", "POLISH", "PORTUGUESE", "RUSSIAN", "GERMAN", "KOREAN", "JAPANESE",
           "CHINESE", "CHINESESIMP", "TURKISH", "SWEDISH", "SLOVAK", "SERBOCROATIAN", "NORWEGIAN", "ICELANDIC", "HUNGARIAN", "GREEK", "FINNISH", "DUTCH">>
Called(t) == IF t \in DOMAIN Place THEN t ELSE IF \E i \in 1..24 : t \in {Lower[i], Upper[i]} THEN Languages[CHOOSE i \in 1..24 : t \in {Lower[i], Upper[i]}] ELSE t

RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Concat(Tail(qs))
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
-----------------------------------------------------------------------------
(* Sorting                                                                    *)
AttrOf(n) == n.attr
LangNo(n) == Place[n.tag]
\* stable: by name or id as strings; translations in the order of the languages
RECURSIVE PutIn(_, _), SortBy(_)
Before(a, b) == IF IsLanguage(a.tag) THEN LangNo(a) < LangNo(b) ELSE LessS(a.attr, b.attr)
PutIn(q, x) == IF q = <<>> \/ ~Before(x, q[Len(q)]) THEN Append(q, x) ELSE Append(PutIn(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
SortBy(q) == IF q = <<>> THEN <<>> ELSE PutIn(SortBy(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
OfTag(q, t) == SelectSeq(q, LAMBDA n : n.tag = t)
\* a written table always has its languages in order, and keys before containers
RECURSIVE Ordered(_, _)
Ordered(n, all) ==
  IF n.tag = "Key" THEN [n EXCEPT !.kids = SortBy(n.kids)]
  ELSE IF IsLanguage(n.tag) THEN n
  ELSE LET k == TLCEval([i \in 1..Len(n.kids) |-> Ordered(n.kids[i], all)])
           g == IF n.tag = "Project" THEN <<k>> ELSE <<OfTag(k, "Key"), OfTag(k, "Container")>>
       IN [n EXCEPT !.kids = Concat([i \in 1..Len(g) |-> IF all THEN SortBy(g[i]) ELSE g[i]])]
Sorted(f) == [f EXCEPT !.doc = Ordered(f.doc, TRUE)]
Plain(f) == [f EXCEPT !.doc = Ordered(f.doc, FALSE)]
-----------------------------------------------------------------------------
(* Writing                                                                    *)
RECURSIVE Pad(_)
Pad(n) == IF n = 0 THEN "" ELSE "    " \o Pad(n - 1)
NameOf(n) == IF n.tag = "Key" THEN "ID" ELSE "name"
OpenLine(n) == IF IsLanguage(n.tag) THEN "<" \o n.tag \o ">" ELSE "<" \o n.tag \o " " \o NameOf(n) \o "=\"" \o n.attr \o "\">"
CloseLine(n) == "</" \o n.tag \o ">"
Note(c, d) == IF c = "" THEN <<>> ELSE <<Pad(d) \o c>>
RECURSIVE LinesIn(_, _)
LinesIn(n, d) ==
  Note(n.before, d) \o
  (IF IsLanguage(n.tag) THEN <<Pad(d) \o OpenLine(n) \o n.text \o CloseLine(n)>>
   ELSE IF n.kids = <<>> /\ n.end = "" THEN <<Pad(d) \o OpenLine(n) \o CloseLine(n)>>
   ELSE <<Pad(d) \o OpenLine(n)>> \o Concat([i \in 1..Len(n.kids) |-> LinesIn(n.kids[i], d + 1)]) \o Note(n.end, d + 1) \o <<Pad(d) \o CloseLine(n)>>)
XmlLine == "<?xml version=\"1.0\" encoding=\"utf-8\"?>"
Text(f) == JoinS(<<XmlLine>> \o LinesIn(f.doc, 0) \o Note(f.after, 0), "\n") \o "\n"
-----------------------------------------------------------------------------
(* Reading: lines, items, nodes                                               *)
\* the text of a translation as it is written: its markup escaped
Amp(s) == Swap(s, "&", "&amp;")
Angle(s) == Swap(Swap(s, ">", "&gt;"), "<", "&lt;")
RECURSIVE Raw(_)
Raw(s) == LET i == FindFrom(s, "<![CDATA[", 1) IN
          IF i = 0 THEN Angle(s)
          ELSE LET j == FindFrom(s, "]]>", i) IN Angle(SubSeq(s, 1, i - 1)) \o Angle(Amp(SubSeq(s, i + 9, j - 1))) \o Raw(Rest(s, j + 2))
Word(s) == LET E == {i \in 1..Len(s) : At(s, i) \in {" ", ">", "/"}} IN IF E = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in E : \A k \in E : i <= k) - 1)
Odd == [is |-> "odd"]
\* the value of the one attribute: name="value"
Value(s, t) == LET n == (IF t = "Key" THEN "ID=\"" ELSE "name=\"") q == TrimS(s) IN
               IF Starts(q, n) /\ Ends(q, "\"") /\ Len(q) > Len(n) /\ ~Contains(SubSeq(q, Len(n) + 1, Len(q) - 1), "\"") /\ ~Contains(q, ">")
               THEN [ok |-> TRUE, v |-> SubSeq(q, Len(n) + 1, Len(q) - 1)] ELSE [ok |-> FALSE]
Owners == {"Project", "Package", "Container", "Key"}
\* text up to the closing tag, on this line or a later one: the items of that line and how many lines they take
RECURSIVE UntilClosed(_, _, _)
UntilClosed(ls, i, c) == IF i > Len(ls) THEN 0 ELSE IF Contains(ls[i], c) THEN i ELSE UntilClosed(ls, i + 1, c)
RECURSIVE UntilEnd(_, _)
UntilEnd(ls, i) == IF i > Len(ls) THEN 0 ELSE IF Ends(TrimS(ls[i]), "-->") THEN i ELSE UntilEnd(ls, i + 1)
Closers(s) == [is |-> "close", tag |-> SubSeq(s, 3, Len(s) - 1), line |-> s]
Item(ls, i) ==
  LET s == TrimS(ls[i]) w == Word(Rest(s, 1)) IN
  IF s = "" \/ Starts(s, "<?xml") THEN [items |-> <<>>, next |-> i + 1]
  ELSE IF Starts(s, "<!--") THEN
       LET e == UntilEnd(ls, i) t == JoinS(SubSeq(ls, i, e), "\n") IN
       IF e = 0 THEN [items |-> <<Odd>>, next |-> i + 1]
       \* (one comment from here to the end of a line)
       ELSE IF ~Ends(s, "-->") /\ Contains(s, "-->") THEN [items |-> <<Odd>>, next |-> e + 1]
       ELSE [items |-> <<[is |-> "comment", text |-> t, own |-> TRUE]>>, next |-> e + 1]
  ELSE IF ~Starts(s, "<") THEN [items |-> <<Odd>>, next |-> i + 1]
  ELSE IF Starts(s, "</") THEN [items |-> <<IF At(s, Len(s)) = ">" /\ SubSeq(s, 3, Len(s) - 1) \in Owners THEN Closers(s) ELSE Odd>>, next |-> i + 1]
  ELSE IF w \in Owners THEN
       LET empty == Ends(s, "/>") \/ Ends(s, "></" \o w \o ">")
           b == IF Ends(s, "/>") THEN Len(s) - 2 ELSE IF empty THEN Len(s) - Len(w) - 4 ELSE Len(s) - 1
           v == Value(SubSeq(s, 2 + Len(w), b), w)
       IN [items |-> IF At(s, Len(s)) = ">" /\ v.ok
                     THEN <<[is |-> "open", tag |-> w, attr |-> v.v, line |-> s]>> \o (IF empty THEN <<[is |-> "close", tag |-> w, line |-> ""]>> ELSE <<>>)
                     ELSE <<Odd>>, next |-> i + 1]
  ELSE IF ~IsLanguage(Called(w)) THEN [items |-> <<Odd>>, next |-> i + 1]
  ELSE IF s \in {"<" \o w \o "/>", "<" \o w \o " />"} THEN [items |-> <<[is |-> "text", tag |-> Called(w), text |-> "", line |-> s]>>, next |-> i + 1]
  ELSE IF ~Starts(s, "<" \o w \o ">") THEN [items |-> <<Odd>>, next |-> i + 1]
  ELSE LET c == "</" \o w \o ">" e == UntilClosed(ls, i, c)
           t == JoinS(<<TrimLS(ls[i])>> \o SubSeq(ls, i + 1, e), "\n")
           k == FindFrom(t, c, 1)
           rest == TrimS(Rest(t, k + Len(c) - 1))
           inner == SubSeq(t, Len(w) + 3, k - 1)
       IN IF e = 0 THEN [items |-> <<Odd>>, next |-> i + 1]
          ELSE [items |-> <<[is |-> "text", tag |-> Called(w), text |-> Raw(inner), line |-> s]>>
                          \o (IF rest = "" THEN <<>> ELSE IF Starts(rest, "<!--") /\ Ends(rest, "-->") THEN <<[is |-> "comment", text |-> rest, own |-> FALSE]>> ELSE <<Odd>>)
                          \o (IF Contains(Raw(inner), "<") \/ (Contains(inner, "<") /\ ~Contains(inner, "<![CDATA[")) THEN <<Odd>> ELSE <<>>),
                next |-> e + 1]
RECURSIVE ItemsFrom(_, _)
ItemsFrom(ls, i) == IF i > Len(ls) THEN <<>> ELSE LET x == Item(ls, i) IN x.items \o ItemsFrom(ls, x.next)
\* comments that follow each other are one, its first line without what is in front of it
RECURSIVE Joined(_)
Joined(q) == IF Len(q) < 2 THEN q
             ELSE IF q[1].is = "comment" /\ q[2].is = "comment" THEN Joined(<<[q[1] EXCEPT !.text = q[1].text \o "\n" \o q[2].text, !.own = q[1].own /\ q[2].own]>> \o SubSeq(q, 3, Len(q)))
             ELSE <<q[1]>> \o Joined(Tail(q))
Items(t) == LET q == TLCEval(Joined(TLCEval(ItemsFrom(TLCEval(LinesOf(t)), 1)))) IN TLCEval( [i \in 1..Len(q) |-> IF q[i].is = "comment" THEN [q[i] EXCEPT !.text = TrimS(q[i].text)] ELSE q[i]])

\* the nodes from item i on, up to a closing one: [kids, end, i]; whatever does not fit makes it not ok
Node(t, a, x, b, e, k) == [tag |-> t, attr |-> a, text |-> x, before |-> b, end |-> e, kids |-> k]
Inside == [Project |-> {"Package"}, Package |-> {"Key", "Container"}, Container |-> {"Key", "Container"}, Key |-> DOMAIN Place, File |-> {"Project"}]
RECURSIVE Nodes(_, _, _)
Nodes(q, i, in) ==
  IF i > Len(q) THEN [kids |-> <<>>, end |-> "", i |-> i, ok |-> in = "File"]
  ELSE LET note == q[i].is = "comment"
           j == IF note THEN i + 1 ELSE i
           c == IF note THEN q[i].text ELSE ""
       IN IF j > Len(q) THEN [kids |-> <<>>, end |-> c, i |-> j, ok |-> in = "File"]
          ELSE IF q[j].is = "close" THEN [kids |-> <<>>, end |-> c, i |-> j, ok |-> q[j].tag = in]
          ELSE IF q[j].tag \notin Inside[in] THEN [kids |-> <<>>, end |-> "", i |-> j, ok |-> FALSE]
          ELSE IF q[j].is = "text" THEN
               LET r == Nodes(q, j + 1, in) IN [r EXCEPT !.kids = <<Node(q[j].tag, "", q[j].text, c, "", <<>>)>> \o r.kids]
          ELSE LET own == Nodes(q, j + 1, q[j].tag) IN
               IF ~own.ok THEN own
               ELSE LET r == Nodes(q, own.i + 1, in) IN [r EXCEPT !.kids = <<Node(q[j].tag, q[j].attr, "", c, own.end, own.kids)>> \o r.kids]
\* "odd": nothing is said here of such a file. "error": it is no stringtable.
NoRepeat(q) == \A i, j \in 1..Len(q) : i < j => q[i].tag # q[j].tag
Together(q, t) == \A i, j, k \in 1..Len(q) : i < j /\ j < k /\ q[i].tag = t /\ q[k].tag = t => q[j].tag = t
RECURSIVE Sound(_)
Sound(n) == /\ n.tag = "Key" => NoRepeat(n.kids)
            /\ n.tag \in {"Package", "Container"} => Together(n.kids, "Key") /\ Together(n.kids, "Container")
            /\ n.tag = "Project" => n.kids # <<>>
            /\ \A i \in 1..Len(n.kids) : Sound(n.kids[i])
Read(t) == LET q == Items(t) IN
           IF \E i \in 1..Len(q) : q[i].is = "odd" THEN [is |-> "odd"]
           ELSE LET r == TLCEval(Nodes(q, 1, "File")) IN
                IF ~r.ok \/ r.i <= Len(q) \/ Len(r.kids) # 1 THEN [is |-> "error"]
                ELSE IF ~Sound(r.kids[1]) THEN [is |-> "error"]
                ELSE [is |-> "table", doc |-> r.kids[1], after |-> r.end]
-----------------------------------------------------------------------------
(* Tables, totals                                                             *)
KeyDataIn(k) == [id |-> k.attr, text |-> [i \in 1..Len(k.kids) |-> <<Lower[LangNo(k.kids[i])], k.kids[i].text>>]]
KeyData(k) == KeyDataIn([k EXCEPT !.kids = SortBy(k.kids)])
RECURSIVE PackData(_)
PackData(p) == LET k == OfTag(p.kids, "Key") c == OfTag(p.kids, "Container") IN
               [name |-> p.attr, keys |-> [i \in 1..Len(k) |-> KeyData(k[i])], containers |-> [i \in 1..Len(c) |-> PackData(c[i])]]
Data(f) == [name |-> f.doc.attr, packages |-> [i \in 1..Len(f.doc.kids) |-> PackData(f.doc.kids[i])]]

\* every key below a node, by the places that lead to it
RECURSIVE Places(_)
Places(n) == IF n.tag = "Key" THEN {<<>>} ELSE UNION {{<<i>> \o p : p \in Places(n.kids[i])} : i \in 1..Len(n.kids)}
RECURSIVE NodeAt(_, _)
NodeAt(n, p) == IF p = <<>> THEN n ELSE NodeAt(n.kids[p[1]], Tail(p))
Has(k, l) == \E i \in 1..Len(k.kids) : k.kids[i].tag = l
Count(n, l) == Cardinality({p \in Places(n) : Has(NodeAt(n, p), l)})
Totals(n) == [total |-> Cardinality(Places(n)),
              text |-> LET q == SelectSeq(Languages, LAMBDA l : Count(n, l) > 0) IN [i \in 1..Len(q) |-> <<Lower[Place[q[i]]], Count(n, q[i])>>]]
-----------------------------------------------------------------------------
(* The lint: cfg is [on, severity, only]                                      *)
Differs(t, only) == LET f == Read(t) IN TrimS(t) # TrimS(Text(IF only THEN Plain(f) ELSE Sorted(f)))
Help(only) == IF only THEN "Run 'hemtt ln sort --only-lang' to sort the stringtable" ELSE "Run 'hemtt ln sort' to sort the stringtable"
\* U: which of them differ
LintOf(cfg, U) ==
  IF ~cfg.on THEN <<>>
  ELSE IF Len(U) <= 3 THEN [i \in 1..Len(U) |-> <<"L-L01", cfg.severity, "Stringtable at '/" \o ToString(U[i] - 1) \o ".xml' is not sorted", Help(cfg.only)>>]
  ELSE <<<<"L-L01", cfg.severity, ToString(Len(U)) \o " stringtables are not sorted", Help(cfg.only)>>>>
Linted(cfg, ts) == LintOf(cfg, SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : Differs(ts[i], cfg.only)))
=============================================================================
