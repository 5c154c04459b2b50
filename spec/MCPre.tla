------------------------------- MODULE MCPre -------------------------------
(* Small exhaustive models of the preprocessor. In each of them every program *)
(* of a finite family is run through the machine of Pre, the result is        *)
(* compared with an independent, declarative definition of what the program   *)
(* means, and the behaviour is printed to be replayed on the real code.       *)
EXTENDS Pre, Json

CONSTANTS MaxLen,      \* longest program of the conditionals and lexer families
          Defs3,       \* number of definition lines of the macro family
          RootLen,     \* lines of the root file of the include and pragma families
          DeadLen,     \* lines in the unselected part
          Lines7,      \* lines per file of the include graphs
          SubLen       \* lines of the included file

RECURSIVE JoinLines(_)
JoinLines(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o "\n" \o JoinLines(Tail(ls))
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o CatAll(Tail(ss))
SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}

Emit(exp) == PrintT(ToJson([files |-> prog.files, exp |-> exp]))
Slim(o) == IF "err" \in DOMAIN o THEN o ELSE [out |-> o.out, warn |-> o.warn, norapify |-> o.norapify]
Full(o) == o
Done == phase = "done"

----------------------------------------------------------------------------
(* P01: conditionals. A program is a sequence of line kinds.                  *)
Kinds1 == {"IFD", "IFN", "IFE", "ELSE", "ENDIF", "DEF", "UND", "TXT"}
Line1(k, i) ==
  CASE k = "IFD" -> "#ifdef A" [] k = "IFN" -> "#ifndef A" [] k = "IFE" -> "#if A == 1"
    [] k = "ELSE" -> "#else" [] k = "ENDIF" -> "#endif" [] k = "DEF" -> "#define A 1" [] k = "UND" -> "#undef A"
    [] k = "TXT" -> "t" \o ToString(i) \o " A"
Text1(ops) == JoinLines([i \in 1..Len(ops) |-> Line1(ops[i], i)])

Opens(k) == k \in {"IFD", "IFN", "IFE"}
\* the #endif (or end of program + 1) that closes the conditional opened at j:
\* the first e > j with as many closings as openings in between
Closer(ops, j) ==
  LET bal(e) == Cardinality({i \in j..e : Opens(ops[i])}) - Cardinality({i \in j..e : ops[i] = "ENDIF"})
      es == {e \in (j + 1)..Len(ops) : bal(e) = 0}
  IN IF es = {} THEN Len(ops) + 1 ELSE CHOOSE e \in es : \A x \in es : e <= x
\* conditionals enclosing line i, and the #else lines that belong to conditional j
Enclosing(ops, i) == {j \in 1..(i - 1) : Opens(ops[j]) /\ Closer(ops, j) > i}
ElsesOf(ops, j) == {e \in (j + 1)..(Closer(ops, j) - 1) :
                      e <= Len(ops) /\ ops[e] = "ELSE" /\ \A h \in Enclosing(ops, e) : h <= j}

RECURSIVE Sel(_, _)
RECURSIVE DefinedAt(_, _)
\* line i is selected: every enclosing conditional picks the part that i is in
Sel(ops, i) ==
  \A j \in Enclosing(ops, i) :
    LET inElse == \E e \in ElsesOf(ops, j) : e < i
        d == DefinedAt(ops, j)
        cond == CASE ops[j] = "IFD" -> d [] ops[j] = "IFN" -> ~d [] ops[j] = "IFE" -> d
    IN cond # inElse
DefinedAt(ops, i) ==
  LET ch == {k \in 1..(i - 1) : ops[k] \in {"DEF", "UND"} /\ Sel(ops, k)}
  IN ch # {} /\ ops[CHOOSE k \in ch : \A x \in ch : k >= x] = "DEF"

BadElse(ops) == {e \in 1..Len(ops) : ops[e] = "ELSE" /\
  LET en == Enclosing(ops, e) IN
    en = {} \/ (\E f \in ElsesOf(ops, CHOOSE j \in en : \A x \in en : j >= x) : f < e)}
Left1(ops) == \E j \in 1..Len(ops) : Opens(ops[j]) /\ Closer(ops, j) = Len(ops) + 1
Mean1(ops) ==
  IF BadElse(ops) # {} THEN
    LET e == CHOOSE e \in BadElse(ops) : \A x \in BadElse(ops) : e <= x
    IN [err |-> IF Enclosing(ops, e) = {} THEN "PE1" ELSE "PE17"]
  ELSE IF Left1(ops) THEN [err |-> "PE18"]
  ELSE [out |-> CatAll([i \in 1..Len(ops) |->
          IF ops[i] = "TXT" /\ Sel(ops, i)
          THEN "t" \o ToString(i) \o (IF DefinedAt(ops, i) THEN " 1" ELSE " A") \o "\n" ELSE ""])]

Init1 == \E ops \in SeqsOf(Kinds1, 1, MaxLen) :
           InitWith([root |-> "/a.hpp", files |-> [x \in {"/a.hpp"} |-> Text1(ops)], ops |-> ops])
Agree(mean, o) == IF "err" \in DOMAIN mean THEN "err" \in DOMAIN o /\ o.err = mean.err
                  ELSE "out" \in DOMAIN o /\ o.out = mean.out
Meaning1 == Done => Agree(Mean1(prog.ops), Obs(m))
Emit1 == Done => Emit(Slim(Obs(m)))

\* Whatever stands in a part that is not selected has no effect, balanced
\* conditionals and broken lines included.
Dead6 == {"x A", "#if", "#ifdef", "#ifndef", "#if A ==", "#ifdef 1", "#if __has_include(<x>)", "#if F", "#else", "#endif",
          "#define", "#define A 2", "#define 1", "#define __LINE__ 1", "#define A(", "#undef", "#undef A", "#include", "#include \"none\"",
          "#pragma", "#pragma hemtt zz", "#pragma hemtt suppress zz", "#foo", "# ", "#ifdef A x", "__EXEC", "F", "__COUNTER__", "\"", "/* #endif */", "// #endif", "\\"}
Opens6(x) == StartsWith(x, "#if")
Wraps6 == {[pre |-> <<"#ifdef NO">>, post |-> <<"#endif">>], [pre |-> <<"#ifndef A">>, post |-> <<"#else", "A", "#endif">>],
           [pre |-> <<"#ifdef A", "A", "#else">>, post |-> <<"#endif">>],
           [pre |-> <<"#if A > 1", "#ifdef A">>, post |-> <<"#endif", "#endif">>],
           [pre |-> <<"#if A >= 1", "#if A == 1", "#else">>, post |-> <<"#endif", "#endif">>]}
RECURSIVE Depth6(_, _)
\* conditionals left open by the lines; -1 if one more is closed than opened, -2 for a second #else
Depth6(ls, st) ==     \* st: for every open conditional whether it had its #else
  IF ls = <<>> THEN Len(st)
  ELSE IF Opens6(Head(ls)) THEN Depth6(Tail(ls), Append(st, FALSE))
  ELSE IF Head(ls) = "#endif" THEN IF st = <<>> THEN -1 ELSE Depth6(Tail(ls), Front(st))
  ELSE IF Head(ls) = "#else" THEN IF st = <<>> \/ Last(st) THEN -2 ELSE Depth6(Tail(ls), Append(Front(st), TRUE))
  ELSE Depth6(Tail(ls), st)
Init6 == \E d \in [1..DeadLen -> Dead6], w \in Wraps6 :
  /\ Depth6(d, <<>>) = 0
  /\ InitWith([root |-> "/a.hpp", ops |-> [w |-> w, d |-> d],
       files |-> [x \in {"/a.hpp"} |-> JoinLines(<<"#define F(p) p", "#define A 1">> \o w.pre \o d \o w.post \o <<"A __COUNTER__ F(( x))">>)]])
Mean6(ops) == [out |-> (IF Has(ops.w.pre \o ops.w.post, "A") THEN "1\n" ELSE "") \o "1 0 ( x)\n"]
Meaning6 == Done => Agree(Mean6(prog.ops), Obs(m))
Emit6 == Done => Emit(Slim(Obs(m)))

\* Comparisons. What the texts are worth is written down as their order: the
\* classes stand from the least to the greatest value.
Order8 == << {"-2000000002"}, {"-2000000001"}, {"-16777217"}, {"-16777216"}, {"-10"}, {"-9.5"}, {"-1"},
             {"0", "00", "0.0", "-0"}, {"0.000001"}, {"0.1"}, {"0.25"}, {"1", "01", "1.0"}, {"1.00000001"}, {"2"}, {"9"}, {"10"},
             {"255"}, {"256"}, {"65536"}, {"16777216"}, {"16777217"}, {"2147483647"}, {"2147483648"}, {"4294967297"}, {"9007199254.5"} >>
Rank8(t) == IF \E i \in 1..Len(Order8) : t \in Order8[i] THEN CHOOSE i \in 1..Len(Order8) : t \in Order8[i] ELSE 0
Words8 == {"abc", "1x"}
Init8 == \E l \in (UNION {Order8[i] : i \in 1..Len(Order8)}) \cup Words8, r \in (UNION {Order8[i] : i \in 1..Len(Order8)}) \cup Words8,
            op \in {"==", "!=", "<", "<=", ">", ">="}, viaL \in {TRUE}, viaR \in BOOLEAN :
  InitWith([root |-> "/a.hpp", ops |-> [l |-> l, r |-> r, op |-> op],
    files |-> [x \in {"/a.hpp"} |-> JoinLines(<<"#define L " \o l, "#define R " \o r,
       "#if " \o (IF viaL THEN "L" ELSE l) \o " " \o op \o " " \o (IF viaR THEN "R" ELSE r), "yes", "#else", "no", "#endif">>)]])
Mean8(o) ==
  LET a == Rank8(o.l) b == Rank8(o.r)
      yes == CASE o.op = "==" -> o.l = o.r [] o.op = "!=" -> o.l # o.r
               [] o.op = "<" -> a < b [] o.op = "<=" -> a <= b [] o.op = ">" -> a > b [] o.op = ">=" -> a >= b
  IN IF o.op \in {"<", "<=", ">", ">="} /\ (a = 0 \/ b = 0) THEN [err |-> "PE15"] ELSE [out |-> (IF yes THEN "yes\n" ELSE "no\n")]
Meaning8 == Done => Agree(Mean8(prog.ops), Obs(m))
Emit8 == Done => Emit(Slim(Obs(m)))

----------------------------------------------------------------------------
(* P02: macros. Bodies and uses are trees; their meaning is defined on the    *)
(* trees, the machine sees only their text.                                   *)
P(s) == [c |-> "plain", s |-> s]
N(s) == [c |-> "name", s |-> s]
Q(s) == [c |-> "str", s |-> s]
H(s) == [c |-> "hash", s |-> s]
J == [c |-> "join", s |-> "##"]
C(f, args) == [c |-> "call", s |-> f, args |-> args]

RECURSIVE Show(_)
RECURSIVE ShowArgs(_)
Show(it) == IF it = <<>> THEN ""
  ELSE LET h == Head(it) IN
    (CASE h.c = "str" -> "\"" \o h.s \o "\"" [] h.c = "hash" -> "#" \o h.s
       [] h.c = "call" -> h.s \o "(" \o ShowArgs(h.args) \o ")" [] OTHER -> h.s) \o Show(Tail(it))
ShowArgs(as) == IF as = <<>> THEN "" ELSE IF Len(as) = 1 THEN Show(as[1]) ELSE Show(as[1]) \o "," \o ShowArgs(Tail(as))

\* env: [defs, act, par, own]: macros in force, being expanded, parameters of the
\* innermost call and the name of that call. Result: [x text, e error]
Known(env, n) == n \in DOMAIN env.par \/ (n \notin env.act /\ n \in DOMAIN env.defs)
RECURSIVE Mean(_, _)
RECURSIVE MeanArgs(_, _)
MeanArgs(as, env) ==
  IF as = <<>> THEN [xs |-> <<>>, e |-> ""]
  ELSE LET h == Mean(as[1], env) IN
    IF h.e # "" THEN [xs |-> <<>>, e |-> h.e]
    ELSE LET t == MeanArgs(Tail(as), env) IN [xs |-> <<h.x>> \o t.xs, e |-> t.e]
\* an empty last argument is not an argument
Counted(xs) == IF xs # <<>> /\ Last(xs) = "" THEN Front(xs) ELSE xs
RECURSIVE Commas(_)
Commas(xs) == IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o "," \o Commas(Tail(xs))
MeanName(n, env) ==
  IF n \in DOMAIN env.par THEN [x |-> env.par[n], e |-> ""]
  ELSE IF ~Known(env, n) THEN [x |-> n, e |-> ""]
  ELSE LET d == env.defs[n] IN
    CASE d.c = "unit" -> [x |-> "", e |-> "PE11"]
      [] d.c = "fn" -> [x |-> "", e |-> "PE10"]
      [] d.c = "val" -> Mean(d.b, [env EXCEPT !.act = @ \cup {n}])
Mean(it, env) ==
  IF it = <<>> THEN [x |-> "", e |-> ""]
  ELSE LET h == Head(it)
           r == CASE h.c = "plain" -> [x |-> h.s, e |-> ""]
                  [] h.c = "str" -> [x |-> "\"" \o h.s \o "\"", e |-> ""]
                  [] h.c = "join" -> [x |-> "", e |-> ""]
                  [] h.c = "name" -> MeanName(h.s, env)
                  [] h.c = "hash" -> IF Known(env, h.s)
                       THEN LET n == MeanName(h.s, env) IN [x |-> "\"" \o n.x \o "\"", e |-> n.e]
                       ELSE [x |-> "#" \o h.s, e |-> ""]
                  [] h.c = "call" ->
                       IF Known(env, h.s) /\ env.defs[h.s].c = "unit" THEN [x |-> "", e |-> "PE11"]
                       ELSE LET as == MeanArgs(h.args, env) IN
                         IF ~Known(env, h.s) THEN [x |-> h.s \o "(" \o Commas(as.xs) \o ")", e |-> as.e]
                         ELSE IF env.defs[h.s].c = "val" THEN
                           LET v == MeanName(h.s, env)
                           IN [x |-> v.x \o "(" \o Commas(as.xs) \o ")", e |-> IF v.e # "" THEN v.e ELSE as.e]
                         ELSE IF as.e # "" THEN [x |-> "", e |-> as.e]
                         ELSE LET d == env.defs[h.s] xs == Counted(as.xs) IN
                           IF Len(xs) # Len(d.ps) THEN [x |-> "", e |-> "PE9"]
                           ELSE Mean(d.b, [env EXCEPT !.act = @ \cup {h.s},
                                  !.par = [p \in {d.ps[i] : i \in 1..Len(d.ps)} |->
                                             xs[CHOOSE i \in 1..Len(d.ps) : d.ps[i] = p]]])
       IN IF r.e # "" THEN [x |-> "", e |-> r.e]
          ELSE LET t == Mean(Tail(it), env) IN [x |-> r.x \o t.x, e |-> t.e]

DV(n, b) == [op |-> "def", n |-> n, d |-> [c |-> "val", b |-> b]]
DF(n, ps, b) == [op |-> "def", n |-> n, d |-> [c |-> "fn", ps |-> ps, b |-> b]]
DU(n) == [op |-> "def", n |-> n, d |-> [c |-> "unit"]]
UN(n) == [op |-> "undef", n |-> n]

DefPool == {
  DV("A", <<P("x")>>), DV("A", <<N("B"), P("+"), N("A")>>), DV("B", <<N("A")>>), DV("B", <<Q("A"), P("y")>>),
  DV("A", <<C("F", <<<<N("A")>>>>)>>), DV("A", <<N("F")>>), DU("B"),
  DF("F", <<"p">>, <<P("["), N("p"), P("]")>>), DF("F", <<"p">>, <<H("p"), P(" "), N("B")>>),
  DF("F", <<"p">>, <<N("p"), J, N("B")>>), DF("F", <<"p">>, <<C("G", <<<<N("p")>>, <<P("1")>>>>), N("A")>>),
  DF("F", <<"p", "q">>, <<N("q"), P("-"), N("p"), Q("p"), H("B")>>),
  DF("G", <<"p", "q">>, <<N("q"), P("."), C("F", <<<<N("p")>>>>)>>), DF("G", <<"B">>, <<N("B"), J, P("z")>>),
  DF("F", <<"q">>, <<N("q"), P(" "), N("p")>>), DF("G", <<"p", "q">>, <<C("F", <<<<N("q")>>>>), P("|"), N("p"), P("|"), C("F", <<<<P("4")>>>>)>>),
  UN("A"), UN("F")}
UsePool == {
  <<N("A"), P(";"), N("B")>>, <<C("F", <<<<N("A")>>>>), P(" "), Q("A B")>>, <<C("F", <<<<C("F", <<<<N("B")>>>>)>>>>)>>,
  <<C("F", <<<<P("1")>>, <<N("A")>>>>)>>, <<C("F", <<<<Q("A,B")>>>>)>>, <<C("F", <<>>)>>,
  <<C("G", <<<<N("A")>>, <<C("F", <<<<P("2")>>>>)>>>>)>>, <<C("G", <<<<N("F")>>>>), N("A")>>,
  <<C("A", <<<<P("3")>>>>)>>, <<N("A"), J, N("B")>>}

RECURSIVE Params(_)
Params(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "," \o Params(Tail(ps))
ShowDef(o) ==
  IF o.op = "undef" THEN "#undef " \o o.n
  ELSE CASE o.d.c = "val" -> "#define " \o o.n \o " " \o Show(o.d.b)
         [] o.d.c = "unit" -> "#define " \o o.n
         [] o.d.c = "fn" -> "#define " \o o.n \o "(" \o Params(o.d.ps) \o ") " \o Show(o.d.b)
\* a definition without a value leaves its newline in the output
DefOut(o) == IF o.op = "def" /\ o.d.c = "unit" THEN "\n" ELSE ""

RECURSIVE TableOf(_, _)
TableOf(ds, acc) == IF ds = <<>> THEN acc
  ELSE TableOf(Tail(ds), IF Head(ds).op = "undef" THEN Del(acc, Head(ds).n) ELSE Put(acc, Head(ds).n, Head(ds).d))
Mean2(ops) ==
  LET r == Mean(ops.use, [defs |-> TableOf(ops.ds, Empty), act |-> {}, par |-> Empty])
  IN IF r.e # "" THEN [err |-> r.e]
     ELSE [out |-> CatAll([i \in 1..Len(ops.ds) |-> DefOut(ops.ds[i])]) \o r.x \o "\n"]
Init2 == \E ds \in [1..Defs3 -> DefPool], u \in UsePool :
           InitWith([root |-> "/a.hpp", ops |-> [ds |-> ds, use |-> u],
                     files |-> [x \in {"/a.hpp"} |-> JoinLines([i \in 1..Defs3 |-> ShowDef(ds[i])] \o <<Show(u)>>)]])
Meaning2 == Done => Agree(Mean2(prog.ops), Obs(m))
Emit2 == Done => Emit(Slim(Obs(m)))

----------------------------------------------------------------------------
(* P03: includes and built-ins. Meaning: flatten, then read from left.        *)
RootOps == {"incB", "incC", "ctr", "reset", "resetM", "use", "defA", "undA", "loc"}
SubOps == {"incC", "ctr", "reset", "use", "defA", "locM"}
LeafOps == {"ctr", "reset", "undA", "loc", "use"}
Line3(k, f, i) ==
  CASE k = "incB" -> "#include \"b.hpp\"" [] k = "incC" -> "#include <sub/c.inc.hpp>"
    [] k = "ctr" -> (IF i % 2 = 0 THEN "__COUNTER__ __COUNTER__" ELSE "TWICE(__COUNTER__,NOW)")
    [] k = "resetM" -> "RESET(x)" [] k = "locM" -> "LOC" [] k = "reset" -> "__COUNTER_RESET__" [] k = "use" -> "A"
    [] k = "defA" -> "#define A " \o ToString(i) \o BaseName(f) [] k = "undA" -> "#undef A"
    [] k = "loc" -> "__LINE__ __FILE_NAME__ __FILE_SHORT__ __FILE__"
Head3 == <<"#define NOW __COUNTER__", "#define TWICE(p,q) p q", "#define RESET(p) p __COUNTER_RESET__", "#define LOC __LINE__ __FILE_NAME__ __FILE_SHORT__ __FILE__">>
Src3(ops, f) == JoinLines((IF f = "/a.hpp" THEN Head3 ELSE <<>>) \o [i \in 1..Len(ops) |-> Line3(ops[i], f, i)])
RECURSIVE Flatten3(_, _, _)
Flatten3(p, f, i) ==      \* <<kind, file, line>> in order of effect
  LET ops == p.ops[f] IN
  IF i > Len(ops) THEN <<>>
  ELSE (CASE ops[i] = "incB" -> Flatten3(p, "/b.hpp", 1) [] ops[i] = "incC" -> Flatten3(p, "/sub/c.inc.hpp", 1)
          [] OTHER -> <<<<ops[i], f, IF f = "/a.hpp" THEN i + Len(Head3) ELSE i>>>>) \o Flatten3(p, f, i + 1)
\* value of A / of the counter before step i of the flattened program
LastDef(fl, i) == LET ks == {k \in 1..(i - 1) : fl[k][1] \in {"defA", "undA"}}
                  IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A x \in ks : x <= k
ValueA(fl, i) == LET k == LastDef(fl, i) IN
  IF k = 0 \/ fl[k][1] = "undA" THEN "A" ELSE ToString(fl[k][3] - (IF fl[k][2] = "/a.hpp" THEN Len(Head3) ELSE 0)) \o BaseName(fl[k][2])
CountAt(fl, i) == LET rs == {k \in 1..(i - 1) : fl[k][1] \in {"reset", "resetM"}}
                      lo == IF rs = {} THEN 0 ELSE CHOOSE k \in rs : \A x \in rs : x <= k
                  IN 2 * Cardinality({k \in (lo + 1)..(i - 1) : fl[k][1] = "ctr"})
Step3(fl, i) ==
  LET k == fl[i][1] f == fl[i][2] IN
  CASE k = "ctr" -> ToString(CountAt(fl, i)) \o " " \o ToString(CountAt(fl, i) + 1) \o "\n"
    [] k = "reset" -> "\n"
    [] k = "use" -> ValueA(fl, i) \o "\n"
    [] k = "resetM" -> "x \n"
    [] k \in {"loc", "locM"} -> ToString(fl[i][3]) \o " " \o BaseName(f) \o " "
                     \o (CASE f = "/a.hpp" -> "a" [] f = "/b.hpp" -> "b" [] OTHER -> "c.inc")
                     \o " \"" \o (CASE f = "/a.hpp" -> "\\a.hpp" [] f = "/b.hpp" -> "\\b.hpp" [] OTHER -> "\\sub\\c.inc.hpp") \o "\"\n"
    [] OTHER -> ""
Mean3(p) == LET fl == Flatten3(p, "/a.hpp", 1) IN [out |-> CatAll([i \in 1..Len(fl) |-> Step3(fl, i)])]
Files3 == {"/a.hpp", "/b.hpp", "/sub/c.inc.hpp"}
Init3 == \E a \in [1..RootLen -> RootOps], b \in [1..SubLen -> SubOps], c \in [1..1 -> LeafOps] :
  LET ops == [f \in Files3 |-> CASE f = "/a.hpp" -> a [] f = "/b.hpp" -> b [] OTHER -> c]
  IN /\ \E i \in 1..RootLen : a[i] \in {"incB", "incC"}
     /\ InitWith([root |-> "/a.hpp", ops |-> ops, files |-> [f \in Files3 |-> Src3(ops[f], f)]])
Meaning3 == Done => Agree(Mean3(prog), Obs(m))
Emit3 == Done => Emit(Slim(Obs(m)))

\* Include graphs over directories: every file is a sequence of lines, each a
\* text line or an include written in one of several ways.
Targets7 == ("/a.hpp" :> {<<"x/b.hpp", "/x/b.hpp">>, <<"x/y/c.hpp", "/x/y/c.hpp">>, <<"./x/e.hpp", "/x/e.hpp">>}
          @@ "/x/b.hpp" :> {<<"y/c.hpp", "/x/y/c.hpp">>, <<"e.hpp", "/x/e.hpp">>, <<"y\\d.hpp", "/x/y/d.hpp">>}
          @@ "/x/y/c.hpp" :> {<<"d.hpp", "/x/y/d.hpp">>, <<"../e.hpp", "/x/e.hpp">>, <<"/x/y/d.hpp", "/x/y/d.hpp">>, <<"\\x\\e.hpp", "/x/e.hpp">>})
Text7 == <<"", "">>
Line7(x, f) == IF x = Text7 THEN "in __FILE_NAME__ __LINE__ N" ELSE "#include \"" \o x[1] \o "\""
Leaf7(f) == "leaf __FILE__ N\n#define N " \o (IF f = "/x/y/d.hpp" THEN "dd" ELSE "ee") \o "\n"
RECURSIVE Splice7(_, _, _)       \* [x text, n value of N after]
Splice7(ops, f, n) ==
  IF f \notin DOMAIN ops THEN
    [x |-> "leaf \"" \o (IF f = "/x/y/d.hpp" THEN "\\x\\y\\d.hpp" ELSE "\\x\\e.hpp") \o "\" " \o n \o "\n",
     n |-> IF f = "/x/y/d.hpp" THEN "dd" ELSE "ee"]
  ELSE LET go[i \in 0..Len(ops[f])] ==
             IF i = 0 THEN [x |-> "", n |-> n]
             ELSE LET b == go[i - 1] l == ops[f][i] IN
                  IF l = Text7 THEN [x |-> b.x \o "in " \o BaseName(f) \o " " \o ToString(i) \o " " \o b.n \o "\n", n |-> b.n]
                  ELSE LET r == Splice7(ops, l[2], b.n) IN [x |-> b.x \o r.x, n |-> r.n]
       IN go[Len(ops[f])]
Opt7(f) == [1..Lines7 -> Targets7[f] \cup {Text7}]
Init7 == \E a \in [1..2 -> Targets7["/a.hpp"]], b \in Opt7("/x/b.hpp"), c \in Opt7("/x/y/c.hpp") :
  LET ops == ("/a.hpp" :> a @@ "/x/b.hpp" :> b @@ "/x/y/c.hpp" :> c) IN
  InitWith([root |-> "/a.hpp", ops |-> ops,
    files |-> [f \in {"/a.hpp", "/x/b.hpp", "/x/y/c.hpp", "/x/e.hpp", "/x/y/d.hpp"} |->
                 IF f \in DOMAIN ops THEN JoinLines([i \in 1..Len(ops[f]) |-> Line7(ops[f][i], f)]) ELSE Leaf7(f)]])
Meaning7 == Done => Agree([out |-> Splice7(prog.ops, "/a.hpp", "N").x], Obs(m))
Emit7 == Done => Emit(Slim(Obs(m)))

----------------------------------------------------------------------------
(* P04: positions. Every short text over an alphabet of delicate characters:  *)
(* each token's line and text are those at its offset, counted from scratch.  *)
Alphabet == {"~", " ", "\n", "\"", "'", "/", "*", "#"}
Text4 == prog.files["/a.hpp"]
Init4 == \E cs \in SeqsOf(Alphabet, 1, MaxLen) :
           InitWith([root |-> "/a.hpp", ops |-> <<>>, files |-> [x \in {"/a.hpp"} |-> CatAll(cs)]])
NewlinesBefore(s, o) == Cardinality({i \in 1..o : Ch(s, i) = "\n"})
Positions4 == phase = "run" /\ m.frames # <<>> =>
  \A i \in 1..Len(Toks(m)) :
    LET t == Toks(m)[i] IN
      /\ \E k \in 0..Len(Text4) : ByteLen(SubSeq(Text4, 1, k)) = t.o /\ SubSeq(Text4, k + 1, k + Len(t.s)) = t.s
                                  /\ t.l = 1 + NewlinesBefore(Text4, k)
      /\ i > 1 => t.o >= Toks(m)[i - 1].o
\* the output is exactly the leaves, one after another
Tiles4 == Done /\ m.err = "" =>
  LET o == Obs(m) IN
    /\ \A i \in 1..Len(o.leaves) : o.leaves[i][1] = (IF i = 1 THEN 0 ELSE o.leaves[i - 1][1] + Len(o.leaves[i - 1][4]))
    /\ o.out = CatAll([i \in 1..Len(o.leaves) |-> o.leaves[i][4]])
    /\ o.maps = o.leaves      \* nothing is a macro here
Emit4 == Done => Emit(Full(Obs(m)))

----------------------------------------------------------------------------
(* P05: pragmas. Meaning: a use is silent iff some earlier pragma covers it.  *)
Ops5 == {"Sline", "Sfile", "Sconfig", "Fline", "Ffile", "Fconfig", "use", "fmt", "txt", "inc"}
SubOps5 == Ops5 \ {"inc", "txt", "Fline"}
Line5(k, i) ==
  CASE k = "Sline" -> "#pragma hemtt suppress pw3_padded_arg" \o (IF i % 2 = 0 THEN "" ELSE " line")
    [] k = "Sfile" -> "#pragma hemtt suppress pw3_padded_arg file" [] k = "Sconfig" -> "#pragma hemtt suppress pw3_padded_arg config"
    [] k = "Fline" -> "#pragma hemtt flag pw3_ignore_format" \o (IF i % 2 = 0 THEN "" ELSE " line")
    [] k = "Ffile" -> "#pragma hemtt flag pw3_ignore_format file" [] k = "Fconfig" -> "#pragma hemtt flag pw3_ignore_format config"
    [] k = "use" -> "W( x)" [] k = "fmt" -> "ARR_1(x )" [] k = "txt" -> "plain" [] k = "inc" -> "#include \"b.hpp\""
Head5 == <<"#define W(p) p", "#define ARR_1(p) p">>
Src5(ops, pre) == JoinLines(pre \o [i \in 1..Len(ops) |-> Line5(ops[i], i)])
\* entry of the flattened program: kind, instance of the file, line in it; the
\* included file's instances are numbered by the line that includes them
RECURSIVE Flatten5(_, _, _, _)
Flatten5(a, b, inst, i) ==
  LET ops == IF inst = 0 THEN a ELSE b IN
  IF i > Len(ops) THEN <<>>
  ELSE (IF ops[i] = "inc" THEN Flatten5(a, b, i, 1)
        ELSE <<[k |-> ops[i], inst |-> inst, l |-> IF inst = 0 THEN i + 2 ELSE i]>>) \o Flatten5(a, b, inst, i + 1)
TextKinds == {"use", "fmt", "txt"}
Covers(fl, j, i, kind) ==     \* pragma j covers use i
  \/ fl[j].k = kind \o "config" /\ (fl[j].inst = fl[i].inst \/ fl[j].inst = 0)
  \/ fl[j].k = kind \o "file" /\ fl[j].inst = fl[i].inst
  \/ fl[j].k = kind \o "line" /\ fl[j].inst = fl[i].inst
     /\ ~\E x \in (j + 1)..(i - 1) : fl[x].inst = fl[i].inst /\ fl[x].k \in TextKinds
Silent(fl, i) ==
  \/ \E j \in 1..(i - 1) : Covers(fl, j, i, "S")
  \/ fl[i].k = "fmt" /\ \E j \in 1..(i - 1) : Covers(fl, j, i, "F")
Mean5(p) ==
  LET fl == Flatten5(p.ops.a, p.ops.b, 0, 1)
      loud == {i \in 1..Len(fl) : fl[i].k \in {"use", "fmt"} /\ ~Silent(fl, i)}
  IN {[f |-> IF fl[i].inst = 0 THEN "/a.hpp" ELSE "/b.hpp", l |-> fl[i].l] : i \in loud}
Init5 == \E a \in [1..RootLen -> Ops5], b \in [1..SubLen -> SubOps5] :
  /\ (\E i \in 1..RootLen : a[i] = "inc") \/ b = [i \in 1..SubLen |-> "use"]
  /\ \E i \in 1..RootLen : a[i] \in {"use", "fmt", "inc"}
  /\ InitWith([root |-> "/a.hpp", ops |-> [a |-> a, b |-> b],
       files |-> [f \in {"/a.hpp", "/b.hpp"} |-> IF f = "/a.hpp" THEN Src5(a, Head5) ELSE Src5(b, <<>>)]])
\* a token is warned about once even if it is seen in two instances of a file
Meaning5 == Done => /\ m.err = ""
                    /\ {[f |-> m.warns[i].t.f, l |-> m.warns[i].t.l] : i \in 1..Len(m.warns)} = Mean5(prog)
Emit5 == Done => Emit(Slim(Obs(m)))
=============================================================================
