------------------------------ MODULE TraceTable ------------------------------
(* Recorded readings of stringtables: what was read, sorted, written, read    *)
(* again, counted and linted, judged against Table. Case.want: "order" or     *)
(* "totals".                                                                  *)
EXTENDS Table, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, fs
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O

\* a text with its markup escaped, as in the file
RECURSIVE Escaped(_)
EscapedKey(x) == [x EXCEPT !.text = [i \in 1..Len(x.text) |-> <<x.text[i][1], Angle(x.text[i][2])>>]]
Escaped(p) == [p EXCEPT !.keys = Map(EscapedKey, p.keys), !.containers = [i \in 1..Len(p.containers) |-> Escaped(p.containers[i])]]
Seen(t) == [t EXCEPT !.packages = [i \in 1..Len(t.packages) |-> Escaped(t.packages[i])]]

\* of a class of files of which something is lost today (below), the rest still holds
RECURSIVE Bare(_), Trimmed(_)
Bare(n) == [n EXCEPT !.before = "", !.end = "", !.kids = [i \in 1..Len(n.kids) |-> Bare(n.kids[i])]]
Trimmed(n) == [n EXCEPT !.text = TrimS(n.text), !.kids = [i \in 1..Len(n.kids) |-> Trimmed(n.kids[i])]]
BareFile(f) == [f EXCEPT !.doc = Bare(f.doc), !.after = ""]
Less(class, f) == IF class = "" THEN f ELSE IF class = "outer-whitespace-of-a-translation" THEN [f EXCEPT !.doc = Trimmed(f.doc)] ELSE BareFile([f EXCEPT !.doc = Trimmed(f.doc)])
Same(class, t, w) == IF class \in {"", "outer-whitespace-of-a-translation"} THEN t = w ELSE LET r == Read(t) IN r.is = "table" /\ Text(BareFile(r)) = w
OrderOk(g, o, class) ==
  LET f == TLCEval(Less(class, g))
      s == TLCEval(Sorted(f)) p == TLCEval(Plain(f)) wp == TLCEval(Text(p)) ws == TLCEval(Text(s)) ds == TLCEval(Data(s)) IN
  /\ Seen(o.table) = Data(f) /\ Seen(o.sorted) = ds
  /\ Same(class, o.written, wp) /\ Same(class, o.sorted_written, ws) /\ o.twice
  /\ "table" \in DOMAIN o.written_again /\ Seen(o.written_again.table) = Data(p) /\ Same(class, o.written_again.text, wp) /\ Same(class, o.written_again.sorted, ws)
  /\ "table" \in DOMAIN o.sorted_again /\ Seen(o.sorted_again.table) = ds /\ Same(class, o.sorted_again.text, ws) /\ Same(class, o.sorted_again.sorted, ws)
TotalsOk(f, o) == /\ Len(o.totals) = Len(f.doc.kids)
                  /\ \A i \in 1..Len(f.doc.kids) : o.totals[i] = Totals(f.doc.kids[i])
                  /\ o.merged = Totals(f.doc)
(* Classes of files of which something is lost today                          *)
KeyLine(q, j) == LET E == {i \in 1..j - 1 : q[i].is = "open" /\ q[i].tag = "Key"}
                     l == IF E = {} THEN 0 ELSE CHOOSE i \in E : \A x \in E : x <= i
                 IN IF l = 0 \/ \E i \in l..j - 1 : q[i].is = "close" /\ q[i].tag = "Key" THEN 0 ELSE l
Starting(x) == IF x.is = "open" THEN OpenLine(Node(x.tag, x.attr, "", "", "", <<>>)) ELSE IF x.is = "close" THEN CloseLine(Node(x.tag, "", "", "", "", <<>>))
               ELSE "<" \o x.tag \o ">" \o SplitS(x.text, "\n")[1] \o (IF Contains(x.text, "\n") THEN "" ELSE "</" \o x.tag \o ">")
Commented(q) == {j \in 2..Len(q) : q[j - 1].is = "comment"}
Place2(q, j) == IF KeyLine(q, j) = 0 THEN "" ELSE q[KeyLine(q, j)].line
Repeated(q) == \E j \in Commented(q) : \/ \E i \in 1..Len(q) : i # j /\ q[i].is # "comment" /\ q[i].line = q[j].line /\ Place2(q, i) = Place2(q, j)
                                       \/ q[j].is = "close" /\ j > 2 /\ q[j - 2].is = "open"
Reformatted(q) == \E j \in Commented(q) : ~Starts(Starting(q[j]), q[j].line) \/ (KeyLine(q, j) # 0 /\ q[KeyLine(q, j)].line # Starting(q[KeyLine(q, j)]))
Sharing(q) == \E j \in 1..Len(q) : q[j].is = "comment" /\ ~q[j].own
Outer(q) == \E j \in 1..Len(q) : q[j].is = "text" /\ q[j].text # TrimS(q[j].text)
ClassOf(t) == LET q == Items(t) IN
              IF Sharing(q) THEN "comment-sharing-a-line" ELSE IF Repeated(q) THEN "comment-before-a-line-written-twice"
              ELSE IF Reformatted(q) THEN "comment-before-a-reformatted-line" ELSE IF Outer(q) THEN "outer-whitespace-of-a-translation" ELSE ""
One(f, o, class) == IF f.is = "error" THEN "err" \in DOMAIN o
                    ELSE "table" \in DOMAIN o /\ IF Case.want = "order" THEN OrderOk(f, o, class) ELSE TotalsOk(f, o)
N == 1..Len(Case.texts)
AllTables == \A i \in N : fs[i].is = "table"
Good == /\ \A i \in N : One(fs[i], O.each[i], "")
        /\ Case.want = "order" /\ AllTables => O.lint = Linted(Case.config, Case.texts)
Classes == [i \in N |-> IF fs[i].is = "table" THEN ClassOf(Case.texts[i]) ELSE ""]
AsWritten(i) == TrimS(Case.texts[i]) # TrimS(IF Case.config.only THEN O.each[i].written ELSE O.each[i].sorted_written)
Partly == /\ \A i \in N : One(fs[i], O.each[i], Classes[i])
          /\ AllTables => O.lint = LintOf(Case.config, SelectSeq([i \in N |-> i], AsWritten))
Verdict == IF \E i \in N : fs[i].is = "odd" THEN [v |-> "domain"]
           ELSE IF Broken \/ Len(O.each) # Len(Case.texts) THEN [v |-> "bad"]
           ELSE IF Good THEN [v |-> "ok"]
           ELSE IF (\A i \in N : Classes[i] = "") \/ ~Partly THEN [v |-> "bad"]
           ELSE [v |-> "bad", key |-> Classes[CHOOSE i \in N : Classes[i] # ""]]
Init == c \in 1..Len(Cases) /\ k = 0 /\ fs = <<>>
Next == k = 0 /\ k' = 1 /\ fs' = [i \in 1..Len(Case.texts) |-> Read(Case.texts[i])] /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson([i |-> c] @@ Verdict))
=============================================================================
