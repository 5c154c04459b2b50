------------------------------- MODULE MCTable -------------------------------
(* Every small stringtable, and every short history of sorting it, sorting    *)
(* only its languages, and writing and reading it.                            *)
EXTENDS Table, Json
CONSTANTS MaxSteps, Notes, Ids, Wide
VARIABLES f, first, hist
Leaf(l, x, b) == Node(l, "", x, b, "", <<>>)
K(id, b, e, kids) == Node("Key", id, "", b, e, kids)
Sets == {<<>>, <<Leaf("English", "x", "")>>, <<Leaf("German", "x y", ""), Leaf("Original", "&lt;", "<!-- g -->")>>,
         <<Leaf("Dutch", "", ""), Leaf("French", "1\n  2", ""), Leaf("Czech", "~", "")>>}
NoteOf(b) == IF b THEN "<!-- c\n  d -->" ELSE ""
KeySeqs == UNION {[1..n -> {K(id, b, "", s) : id \in Ids, b \in {"", NoteOf(TRUE)}, s \in Sets}] : n \in 0..1}
Docs(k1, k2, c, names) == Node("Project", "N", "", "", "", 
      <<Node("Package", names[1], "", IF Notes THEN "<!-- p -->" ELSE "", "",
             k1 \o <<Node("Container", names[3], "", "", "", k2 \o c)>> \o <<Node("Container", names[4], "", "", "", k1)>>),
        Node("Package", names[2], "", "", "", k1 \o k2)>>)
Names == {<<"b", "a", "d", "c">>, <<"a", "b", "c", "d">>, <<"a", "a", "c", "c">>, <<"b", "B", "c~", "c">>}
Nothing == [doc |-> Node("", "", "", "", "", <<>>), after |-> ""]
\* (ids are made different, so that a comment has one place)
RECURSIVE Distinct(_, _)
Distinct(n, w) == IF n.tag = "Key" THEN [n EXCEPT !.attr = n.attr \o w]
                  ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> Distinct(n.kids[i], w \o (IF i = 1 THEN "A" ELSE IF i = 2 THEN "m" ELSE "z"))]]
Init == f = Nothing /\ first = Nothing /\ hist = <<>>
Choose == /\ f = Nothing
          /\ \E k1, k2 \in KeySeqs, c \in IF Wide THEN KeySeqs ELSE {q \in KeySeqs : q = <<>> \/ (q[1].before = "" /\ Len(q[1].kids) = 2)},
                n \in IF Wide THEN Names ELSE {<<"b", "a", "d", "c">>, <<"b", "B", "c~", "c">>}, a \in {"", "<!-- end -->"} :
               f' = [doc |-> Distinct(Docs(k1, k2, [i \in 1..Len(c) |-> Node("Container", "n", "", "", "", <<c[i]>>)], n), ""), after |-> IF Notes THEN a ELSE ""]
          /\ first' = f' /\ UNCHANGED hist
Turn(what, g) == f' = g /\ hist' = Append(hist, what) /\ UNCHANGED first
ReadBack(t) == LET r == Read(t) IN [doc |-> r.doc, after |-> r.after]
Do == /\ f # Nothing /\ Len(hist) < MaxSteps
      /\ \/ Turn("sort", Sorted(f)) \/ Turn("languages", Plain(f)) \/ Turn("file", ReadBack(Text(f)))
Next == Choose \/ Do

\* everything a table says, wherever it stands
RECURSIVE Said(_, _)
Said(n, p) == LET q == Append(p, <<n.tag, n.attr>>) IN
              {<<q, n.text, n.before, n.end>>} \cup UNION {Said(n.kids[i], q) : i \in 1..Len(n.kids)}
RECURSIVE Nodes2(_)
Nodes2(n) == 1 + (IF n.kids = <<>> THEN 0 ELSE LET q == [i \in 1..Len(n.kids) |-> Nodes2(n.kids[i])] IN
                  q[1] + (IF Len(q) > 1 THEN q[2] ELSE 0) + (IF Len(q) > 2 THEN q[3] ELSE 0))
Kept == f # Nothing => Said(f.doc, <<>>) = Said(first.doc, <<>>) /\ f.after = first.after /\ Nodes2(f.doc) = Nodes2(first.doc)
\* no two neighbours the wrong way round
RECURSIVE InOrder(_, _)
InOrder(n, all) == /\ \A i \in 1..Len(n.kids) - 1 : LET a == n.kids[i] b == n.kids[i + 1] IN
                        /\ ~(a.tag = "Container" /\ b.tag = "Key")
                        /\ IsLanguage(a.tag) => Place[a.tag] < Place[b.tag]
                        /\ all /\ a.tag = b.tag /\ ~IsLanguage(a.tag) => ~LessS(b.attr, a.attr)
                   /\ \A i \in 1..Len(n.kids) : InOrder(n.kids[i], all)
Did(w) == \E i \in 1..Len(hist) : hist[i] = w
Orderly == /\ (Did("sort") => InOrder(f.doc, TRUE))
           /\ (Did("languages") => InOrder(f.doc, FALSE))
\* what is sorted stays, and is what the lint accepts
Stable == Did("sort") => Sorted(f) = f /\ ~Differs(Text(f), FALSE)
StableLanguages == Did("languages") => Plain(f) = f /\ ~Differs(Text(f), TRUE)
OneForm == f # Nothing => Text(Sorted(f)) = Text(Sorted(first))
Whole == hist = <<>> /\ f # Nothing => Read(Text(f)) = [is |-> "table", doc |-> f.doc, after |-> f.after]
\* the numbers: those of the parts make those of the whole
SumOf(x) == LET q == [i \in 1..Len(f.doc.kids) |-> IF x = "total" THEN Cardinality(Places(f.doc.kids[i])) ELSE Count(f.doc.kids[i], x)] IN q[1] + q[2]
Summed == f # Nothing => /\ SumOf("total") = Totals(f.doc).total
                         /\ \A l \in {"Original", "English", "Dutch", "Greek"} : SumOf(l) = Count(f.doc, l)
Unmoved == f # Nothing => Totals(f.doc) = Totals(first.doc)
Out == f # Nothing /\ hist = <<>> => PrintT(ToJson([texts |-> <<Text(f)>>]))
=============================================================================
