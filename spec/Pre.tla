-------------------------------- MODULE Pre --------------------------------
(* The HEMTT preprocessor as a state machine.                                *)
(*                                                                           *)
(* prog  the program: root file and the files it can include                 *)
(* m     the state of the preprocessor:                                      *)
(*   frames   files being processed, innermost last: tokens, position in     *)
(*            them and the pragmas in force there                            *)
(*   ifs      open conditionals, innermost last                              *)
(*   defs     macros defined, by name                                        *)
(*   stk/exp  function / value macros being expanded right now               *)
(*   counter  next value of __COUNTER__                                      *)
(*   buf      output so far; every piece remembers the use it came from      *)
(*   warns, err, norap                                                       *)
(*                                                                           *)
(* One step of the machine is one logical line (a directive, or a text line  *)
(* up to the newline that ends it), an include being entered, or the end of  *)
(* a file.                                                                   *)
EXTENDS Lex, FiniteSets

VARIABLES prog, m, phase

Gen == {"__COUNTER__", "__COUNTER_RESET__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__LINE__"}
Protest == {"__DATE_ARR__", "__DATE_STR__", "__DATE_STR_ISO8601__", "__TIME__", "__TIME_UTC__",
  "__TIMESTAMP_UTC__", "__DAY__", "__MONTH__", "__YEAR__", "__RAND_INT*__", "__RAND_UINT*__",
  "__GAME_VER__", "__GAME_VER_MAJ__", "__GAME_VER_MIN__", "__GAME_BUILD__", "__A3_DIAG__",
  "__A3_DEBUG__", "__EXEC"}
Builtin == Gen \cup Protest \cup {"__EVAL", "__ARMA__", "__ARMA3__"}
Commands == {"if", "else", "endif", "ifdef", "ifndef", "define", "undef", "include", "pragma"}

Empty == [x \in {} |-> x]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Has(s, e) == \E i \in 1..Len(s) : s[i] = e

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Texts(_)
Texts(ts) == IF ts = <<>> THEN "" ELSE Head(ts).t \o Texts(Tail(ts))

----------------------------------------------------------------------------
(* Output pieces                                                             *)
Direct(t) == [root |-> t, ts |-> <<t>>, esc |-> t.k = "esc", mac |-> FALSE]
Macro(root, b) == [root |-> root, ts |-> Flat([i \in 1..Len(b) |-> b[i].ts]),
                   esc |-> b # <<>> /\ b[Len(b)].esc, mac |-> TRUE]

Reading(ifs) == \A i \in 1..Len(ifs) : ifs[i].s \in {"RI", "RE"}

\* appending one token to a buffer: comments vanish, an escape eats the newline after it
Out(b, t) == IF t.k = "cmt" THEN b
             ELSE IF t.k = "nl" /\ b # <<>> /\ Last(b).esc THEN Front(b)
             ELSE Append(b, Direct(t))

----------------------------------------------------------------------------
(* Macro table                                                               *)
Def(k, ps, body, tok, l1, l2, arg) ==
  [k |-> k, ps |-> ps, body |-> body, tok |-> tok, l1 |-> l1, l2 |-> l2, arg |-> arg]

Active(mm) == {mm.stk[i].n : i \in 1..Len(mm.stk)} \cup {mm.exp[i] : i \in 1..Len(mm.exp)}

\* would a use of k be expanded here?
Expands(mm, k) ==
  IF k \in Gen THEN TRUE
  ELSE IF mm.stk # <<>> /\ Last(mm.stk).n = k THEN FALSE
  ELSE IF mm.stk # <<>> /\ k \in DOMAIN Last(mm.stk).a THEN TRUE
  ELSE IF k \in Active(mm) THEN FALSE
  ELSE k \in DOMAIN mm.defs

None == "none"
Lookup(mm, k) ==
  IF mm.stk # <<>> /\ k \in DOMAIN Last(mm.stk).a THEN Last(mm.stk).a[k]
  ELSE IF k \in DOMAIN mm.defs THEN mm.defs[k] ELSE [k |-> None]

\* a function macro's name inside its own body text is not a use of it
LookupAt(mm, tok) ==
  LET d == Lookup(mm, tok.t)
  IN IF d.k = "fn" /\ tok.f = d.tok.f /\ tok.l >= d.l1 /\ tok.l <= d.l2 THEN [k |-> None] ELSE d

RECURSIVE Backslash(_)
Backslash(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "/" THEN "\\" ELSE Ch(s, 1)) \o Backslash(SubSeq(s, 2, Len(s)))
RECURSIVE LastAt(_, _, _)
LastAt(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastAt(s, c, i - 1)
BaseName(p) == SubSeq(p, LastAt(p, "/", Len(p)) + 1, Len(p))
DirName(p) == SubSeq(p, 1, LastAt(p, "/", Len(p)))     \* with the trailing slash
Stem(n) == SubSeq(n, 1, LastAt(n, ".", Len(n)) - 1)

As(tok, k, t) == [tok EXCEPT !.k = k, !.t = t]

\* generated built-ins: definition, and the state after producing it
GenDef(mm, tok, site) ==
  LET val(ts) == Def("val", <<>>, ts, tok, 0, 0, FALSE) IN
  CASE tok.t = "__COUNTER__" ->
         [d |-> val(<<As(tok, "digit", ToString(mm.counter))>>), m |-> [mm EXCEPT !.counter = @ + 1]]
    [] tok.t = "__COUNTER_RESET__" ->
         [d |-> Def("void", <<>>, <<>>, tok, 0, 0, FALSE), m |-> [mm EXCEPT !.counter = 0]]
    [] tok.t = "__FILE__" ->
         [d |-> val(<<As(tok, "dq", "\""), As(tok, "word", Backslash(site.f)), As(tok, "dq", "\"")>>), m |-> mm]
    [] tok.t = "__FILE_NAME__" -> [d |-> val(<<As(tok, "word", BaseName(site.f))>>), m |-> mm]
    [] tok.t = "__FILE_SHORT__" -> [d |-> val(<<As(tok, "word", Stem(BaseName(site.f)))>>), m |-> mm]
    [] tok.t = "__LINE__" -> [d |-> val(<<As(tok, "digit", ToString(site.l))>>), m |-> mm]

GetDef(mm, tok, site) == IF tok.t \in Gen THEN GenDef(mm, tok, site) ELSE [d |-> LookupAt(mm, tok), m |-> mm]

----------------------------------------------------------------------------
(* Pragmas of the innermost file                                             *)
Sup(mm) == Last(mm.frames).sup
Flg(mm) == Last(mm.frames).flg
Prefixes == {"ARR_", "TRACE_", "INFO_", "WARNING_", "ERROR_", "DEBUG_", "FORMAT_"}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Formatting(n) == \E p \in Prefixes : StartsWith(n, p)
WarnsPadding(mm, name) ==
  /\ "pw3_padded_arg" \notin DOMAIN Sup(mm)
  /\ ~("pw3_ignore_format" \in DOMAIN Flg(mm) /\ Formatting(name))

IsWs(t) == t.k \in {"ws", "cmt"}
AddWarn(ws, c, t) == IF Has(ws, [c |-> c, t |-> t]) THEN ws ELSE Append(ws, [c |-> c, t |-> t])
PadWarn(ws, arg) ==
  IF arg = <<>> THEN ws
  ELSE LET w1 == IF IsWs(arg[1]) THEN AddWarn(ws, "PW3", arg[1]) ELSE ws
       IN IF IsWs(Last(arg)) THEN AddWarn(w1, "PW3", Last(arg)) ELSE w1
RECURSIVE PadWarns(_, _)
PadWarns(ws, args) == IF args = <<>> THEN ws ELSE PadWarns(PadWarn(ws, Head(args)), Tail(args))

----------------------------------------------------------------------------
(* Expansion. Every operator takes the machine and a position in a token     *)
(* sequence and returns [m, i, b]: the machine, the position after, output.  *)
K(toks, i) == IF i <= Len(toks) THEN toks[i].k ELSE "end"
Fail(mm, code) == [mm EXCEPT !.err = code]

NoJoin(ts) == SelectSeq(ts, LAMBDA t : t.k # "join")
RECURSIVE ParamMap(_, _, _)
ParamMap(ps, args, acc) ==
  IF ps = <<>> THEN acc
  ELSE ParamMap(Tail(ps), Tail(args),
         Put(acc, Head(ps).t, Def("val", <<>>, Head(args), Head(ps), 0, 0, TRUE)))

RECURSIVE Walk(_, _, _, _, _, _, _, _)
RECURSIVE DefineUse(_, _, _, _)
RECURSIVE ReadArgs(_, _, _, _, _)

\* s: [q quotes, d depth, args, arg]
ReadArgs(mm, toks, i, site, s) ==
  LET fin == [m |-> mm, i |-> i, args |-> IF s.arg # <<>> THEN Append(s.args, s.arg) ELSE s.args]
      take(s2) == ReadArgs(mm, toks, i + 1, site, [s2 EXCEPT !.arg = Append(@, toks[i])])
  IN
  IF i > Len(toks) THEN fin
  ELSE LET t == toks[i] IN
    IF s.q THEN take([s EXCEPT !.q = t.k # "dq"])
    ELSE IF t.k = "word" /\ Expands(mm, t.t) THEN
      LET r == DefineUse(mm, toks, i, site)
      IN IF r.m.err # "" THEN [m |-> r.m, i |-> r.i, args |-> <<>>]
         ELSE ReadArgs(r.m, toks, r.i, site, [s EXCEPT !.arg = @ \o Flat([j \in 1..Len(r.b) |-> r.b[j].ts])])
    ELSE IF t.k = "lp" THEN take([s EXCEPT !.d = @ + 1])
    ELSE IF t.k = "rp" THEN IF s.d = 0 THEN [fin EXCEPT !.i = i + 1] ELSE take([s EXCEPT !.d = @ - 1])
    ELSE IF t.k = "comma" THEN ReadArgs(mm, toks, i + 1, site, [s EXCEPT !.args = Append(@, s.arg), !.arg = <<>>])
    ELSE IF t.k = "dq" THEN take([s EXCEPT !.q = TRUE])
    ELSE take(s)

\* toks[i] names a macro; site is the token of the outermost use
DefineUse(mm, toks, i, site) ==
  LET id == toks[i]
      g == GetDef(mm, id, site)
      d == g.d
  IN
  CASE d.k = None -> [m |-> g.m, i |-> i + 1, b |-> <<Direct(id)>>]
    [] d.k = "void" -> [m |-> g.m, i |-> i + 1, b |-> <<>>]
    [] d.k = "unit" -> [m |-> Fail(g.m, "PE11"), i |-> i, b |-> <<>>]
    [] d.k = "val" /\ d.arg ->
         [m |-> g.m, i |-> i + 1, b |-> <<Macro(id, [j \in 1..Len(d.body) |-> Direct(d.body[j])])>>]
    [] d.k = "val" /\ ~d.arg ->
         LET r == Walk([g.m EXCEPT !.exp = Append(@, id.t)], NoJoin(d.body), 1, site, id.t, FALSE, FALSE, <<>>)
         IN [m |-> [r.m EXCEPT !.exp = Front(@)], i |-> i + 1, b |-> <<Macro(id, r.b)>>]
    [] d.k = "fn" ->
         IF K(toks, i + 1) # "lp" THEN [m |-> Fail(g.m, "PE10"), i |-> i, b |-> <<>>]
         ELSE LET a == ReadArgs(g.m, toks, i + 2, site, [q |-> FALSE, d |-> 0, args |-> <<>>, arg |-> <<>>])
         IN IF a.m.err # "" THEN [m |-> a.m, i |-> i, b |-> <<>>]
            ELSE IF Len(a.args) # Len(d.ps) THEN [m |-> Fail(a.m, "PE9"), i |-> i, b |-> <<>>]
            ELSE LET w == IF WarnsPadding(a.m, id.t) THEN PadWarns(a.m.warns, a.args) ELSE a.m.warns
                     f == [n |-> id.t, a |-> ParamMap(d.ps, a.args, Empty)]
                     r == Walk([a.m EXCEPT !.warns = w, !.stk = Append(@, f)], NoJoin(d.body), 1, site, id.t, FALSE, FALSE, <<>>)
                 IN [m |-> [r.m EXCEPT !.stk = IF @ = <<>> THEN @ ELSE Front(@)], i |-> a.i, b |-> <<Macro(id, r.b)>>]

\* inm: name of the macro whose body this is, "" for a line of a file.
\* q: inside double quotes. jw: only blanks so far on this line (macro bodies only).
\* Directives inside macro bodies are outside of the specified domain.
Walk(mm, toks, i, site, inm, q, jw, b) ==
  IF mm.err # "" \/ i > Len(toks) THEN [m |-> mm, i |-> i, b |-> b]
  ELSE LET t == toks[i] IN
    IF t.k = "eoi" THEN [m |-> mm, i |-> i, b |-> b]
    ELSE IF t.k = "dq" THEN Walk(mm, toks, i + 1, site, inm, ~q, jw, Out(b, t))
    ELSE IF q THEN Walk(mm, toks, i + 1, site, inm, q, jw, Out(b, t))
    ELSE IF t.k = "word" THEN
      IF t.t = "__EXEC" THEN [m |-> Fail(mm, "PE25"), i |-> i, b |-> b]
      ELSE IF t.t \in Protest THEN [m |-> Fail(mm, "PE26"), i |-> i, b |-> b]
      ELSE IF t.t # inm /\ Expands(mm, t.t) THEN
        LET r == DefineUse(mm, toks, i, IF inm = "" THEN t ELSE site)
        IN Walk(r.m, toks, r.i, site, inm, q, jw, b \o r.b)
      ELSE Walk(mm, toks, i + 1, site, inm, q, jw, Out(b, t))
    ELSE IF t.k = "hash" /\ inm # "" THEN
      IF K(toks, i + 1) = "word" /\ toks[i + 1].t \in Commands
      THEN [m |-> Fail(mm, "DOMAIN"), i |-> i, b |-> b]
      ELSE IF K(toks, i + 1) = "word" /\ Expands(mm, toks[i + 1].t) /\ (t.f # site.f \/ t.o < site.o)
      THEN \* quote what the next word stands for
        LET qt == As(t, "dq", "\"")
            w == toks[i + 1]
            r == IF w.t # inm THEN DefineUse(mm, toks, i + 1, site)
                 ELSE [m |-> mm, i |-> i + 2, b |-> <<Direct(w)>>]
        IN Walk(r.m, toks, r.i, site, inm, q, jw, Append(Append(b, Direct(qt)) \o r.b, Direct(qt)))
      ELSE Walk(mm, toks, i + 1, site, inm, q, jw, Out(b, t))
    ELSE IF t.k = "nl" /\ inm = "" THEN [m |-> mm, i |-> i + 1, b |-> Out(b, t)]
    ELSE Walk(mm, toks, i + 1, site, inm, q, jw, Out(b, t))

----------------------------------------------------------------------------
(* Reading directives                                                        *)
RECURSIVE SkipWs(_, _)
SkipWs(toks, i) == IF i <= Len(toks) /\ IsWs(toks[i]) THEN SkipWs(toks, i + 1) ELSE i

RECURSIVE PastNl(_, _)
PastNl(toks, i) == IF i > Len(toks) THEN i ELSE IF toks[i].k = "nl" THEN i + 1 ELSE PastNl(toks, i + 1)

\* [i, ok]: nothing but blanks up to the newline
RECURSIVE RestBlank(_, _)
RestBlank(toks, i) ==
  IF i > Len(toks) THEN [i |-> i, ok |-> TRUE]
  ELSE IF toks[i].k \in {"nl", "eoi"} THEN [i |-> i + 1, ok |-> TRUE]
  ELSE IF IsWs(toks[i]) THEN RestBlank(toks, i + 1)
  ELSE [i |-> i + 1, ok |-> FALSE]

WordErr(toks, i) == IF K(toks, i) = "word" THEN "" ELSE IF K(toks, i) = "eoi" THEN "PE2" ELSE "PE3"

RECURSIVE ReadParams(_, _, _, _)
ReadParams(toks, i, comma, ps) ==      \* comma: a comma has to come next
  LET res(e, j) == [err |-> e, i |-> j, ps |-> ps] IN
  IF i > Len(toks) THEN res("", i)
  ELSE LET t == toks[i] IN
    IF t.k = "word" THEN IF comma THEN res("PE5", i) ELSE ReadParams(toks, i + 1, TRUE, Append(ps, t))
    ELSE IF t.k = "comma" THEN IF comma THEN ReadParams(toks, i + 1, FALSE, ps) ELSE res("PE1", i)
    ELSE IF t.k = "rp" THEN res("", i + 1)
    ELSE IF IsWs(t) THEN ReadParams(toks, i + 1, comma, ps)
    ELSE res("PE1", i)

RECURSIVE BodyFrom(_, _, _)
BodyFrom(toks, i, body) ==
  IF i > Len(toks) THEN [i |-> i, body |-> body]
  ELSE LET t == toks[i] IN
    IF t.k = "nl" THEN
      IF body # <<>> /\ Last(body).k = "esc" THEN BodyFrom(toks, i + 1, Append(Front(body), t))
      ELSE [i |-> i + 1, body |-> body]
    ELSE BodyFrom(toks, i + 1, IF t.k = "eoi" THEN body ELSE Append(body, t))
ReadBody(toks, i) == BodyFrom(toks, SkipWs(toks, i), <<>>)

RECURSIVE ReadValue(_, _, _)
ReadValue(toks, i, acc) ==
  IF i > Len(toks) \/ K(toks, i) \in {"ws", "cmt", "nl", "eoi"} THEN [i |-> i, ts |-> acc]
  ELSE ReadValue(toks, i + 1, Append(acc, toks[i]))

\* decimal numbers, compared exactly: sign, digits before and after the point
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (Ch(s, 1) \in Digits /\ AllDigits(SubSeq(s, 2, Len(s))))
RECURSIVE NoLead(_)       \* without leading zeros
NoLead(s) == IF s # "" /\ Ch(s, 1) = "0" THEN NoLead(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE NoTrail(_)      \* without trailing zeros
NoTrail(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN NoTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE FirstAt(_, _, _)
FirstAt(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FirstAt(s, c, i + 1)
RECURSIVE LexLess(_, _)   \* digit strings, left to right; a proper prefix is less
LexLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) # Ch(b, 1) THEN DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1))
  ELSE LexLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
Number(s0) ==
  LET sg == Ch(s0, 1) \in {"-", "+"}
      s == IF sg THEN SubSeq(s0, 2, Len(s0)) ELSE s0
      dot == FirstAt(s, ".", 1)
      ip == IF dot = 0 THEN s ELSE SubSeq(s, 1, dot - 1)
      fp == IF dot = 0 THEN "" ELSE SubSeq(s, dot + 1, Len(s))
      i == NoLead(ip)  f == NoTrail(fp)
  IN IF ip \o fp = "" \/ ~AllDigits(ip) \/ ~AllDigits(fp) THEN [ok |-> FALSE, neg |-> FALSE, ip |-> "", fp |-> ""]
     ELSE [ok |-> TRUE, neg |-> Ch(s0, 1) = "-" /\ i \o f # "", ip |-> i, fp |-> f]
\* magnitude, then value
MagLess(a, b) == IF Len(a.ip) # Len(b.ip) THEN Len(a.ip) < Len(b.ip)
                 ELSE IF a.ip # b.ip THEN LexLess(a.ip, b.ip) ELSE LexLess(a.fp, b.fp)
NumLess(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN MagLess(b, a) ELSE MagLess(a, b)

\* operand of #if: a single name stands for its value. [m, ts, def, err]
Operand(mm, ts) ==
  IF Len(ts) # 1 THEN [m |-> mm, ts |-> ts, def |-> FALSE, err |-> ""]
  ELSE LET g == GetDef(mm, ts[1], ts[1]) IN
    CASE g.d.k = None -> [m |-> g.m, ts |-> ts, def |-> FALSE, err |-> ""]
      [] g.d.k = "val" -> [m |-> g.m, ts |-> g.d.body, def |-> TRUE, err |-> ""]
      [] OTHER -> [m |-> g.m, ts |-> ts, def |-> FALSE, err |-> "PE7"]

Compare(op, l, r) ==      \* [err, v]; both kinds of error are reported as PE15
  CASE op = "==" -> [err |-> "", v |-> l = r]
    [] op = "!=" -> [err |-> "", v |-> l # r]
    [] op \in {">", ">=", "<", "<="} ->
         LET a == Number(l) b == Number(r) IN
         IF ~a.ok \/ ~b.ok THEN [err |-> "PE15", v |-> FALSE]
         ELSE IF Len(a.ip) + Len(a.fp) > 15 \/ Len(b.ip) + Len(b.fp) > 15     \* beyond exact representation
         THEN [err |-> "DOMAIN", v |-> FALSE]
         ELSE [err |-> "", v |-> CASE op = ">" -> NumLess(b, a) [] op = ">=" -> ~NumLess(a, b)
                                   [] op = "<" -> NumLess(a, b) [] op = "<=" -> ~NumLess(b, a)]
    [] OTHER -> [err |-> "PE15", v |-> FALSE]

----------------------------------------------------------------------------
(* Directive actions: state -> state. The cursor of the innermost file is i. *)
At(mm, i) == [mm EXCEPT !.frames[Len(mm.frames)].i = i]
Toks(mm) == Last(mm.frames).toks
Finish(mm, i) == LET r == RestBlank(Toks(mm), i) IN IF r.ok THEN At(mm, r.i) ELSE Fail(mm, "PE1")
PushIf(mm, s) == [mm EXCEPT !.ifs = Append(@, [s |-> s, el |-> FALSE])]
Branch(v) == IF v THEN "RI" ELSE "PI"

DoIfdef(mm, i0, want) ==
  LET toks == Toks(mm) i == SkipWs(toks, i0) e == WordErr(toks, i) IN
  IF e # "" THEN Fail(mm, e)
  ELSE Finish(PushIf(mm, Branch(Expands(mm, toks[i].t) = want)), i + 1)

DoIf(mm, i0) ==
  LET toks == Toks(mm)
      lv == ReadValue(toks, SkipWs(toks, i0), <<>>)
  IN
  IF lv.ts # <<>> /\ lv.ts[1].k = "word" /\ lv.ts[1].t = "__has_include" THEN
    IF "pe23_ignore_has_include" \in DOMAIN Flg(mm)
    THEN At(PushIf([mm EXCEPT !.norap = TRUE], "PI"), PastNl(toks, lv.i))
    ELSE Fail(mm, "PE23")
  ELSE LET l == Operand(mm, lv.ts) IN
  IF l.err # "" THEN Fail(l.m, l.err)
  ELSE IF l.ts = <<>> THEN Fail(l.m, "PE2")
  ELSE LET j == SkipWs(toks, lv.i) IN
  IF K(toks, j) = "nl" THEN
    IF ~l.def THEN Fail(l.m, "PE8")
    ELSE Finish(PushIf(l.m, Branch(Texts(l.ts) = "1")), j)
  ELSE LET ov == ReadValue(toks, j, <<>>)
           rv == ReadValue(toks, SkipWs(toks, ov.i), <<>>)
       IN IF rv.ts = <<>> THEN Fail(l.m, "PE2")
          ELSE LET r == Operand(l.m, rv.ts) IN
            IF r.err # "" THEN Fail(r.m, r.err)
            ELSE LET c == Compare(Texts(ov.ts), Texts(l.ts), Texts(r.ts)) IN
              IF c.err # "" THEN Fail(r.m, c.err) ELSE Finish(PushIf(r.m, Branch(c.v)), rv.i)

DoElse(mm, i) ==
  IF mm.ifs = <<>> THEN Fail(mm, "PE1")
  ELSE IF Last(mm.ifs).el THEN Fail(mm, "PE17")
  ELSE LET s == Last(mm.ifs).s
           n == IF ~Reading(Front(mm.ifs)) THEN s
                ELSE CASE s = "PI" -> "RE" [] s = "RI" -> "PE" [] OTHER -> s
       IN Finish([mm EXCEPT !.ifs = Append(Front(@), [s |-> n, el |-> TRUE])], i)

DoEndif(mm, i) == Finish([mm EXCEPT !.ifs = IF @ = <<>> THEN @ ELSE Front(@)], i)

DoDefine(mm, i0) ==
  LET toks == Toks(mm) i == SkipWs(toks, i0) e == WordErr(toks, i) IN
  IF e # "" THEN Fail(mm, e)
  ELSE LET id == toks[i] IN
    IF id.t \in Builtin THEN Fail(mm, "PE6")
    ELSE LET w == IF id.t \in DOMAIN mm.defs THEN Append(mm.warns, [c |-> "PW1", t |-> id]) ELSE mm.warns
             m1 == [mm EXCEPT !.warns = w]
             def(d, j) == At([m1 EXCEPT !.defs = Put(@, id.t, d)], j)
         IN
         CASE K(toks, i + 1) = "lp" ->
                LET p == ReadParams(toks, i + 2, FALSE, <<>>) IN
                IF p.err # "" THEN Fail(m1, p.err)
                ELSE LET b == ReadBody(toks, p.i)
                         l1 == IF b.body = <<>> THEN id.l ELSE b.body[1].l
                         l2 == IF b.body = <<>> THEN id.n ELSE Last(b.body).n
                     IN def(Def("fn", p.ps, b.body, id, l1, l2, FALSE), b.i)
           [] K(toks, i + 1) \in {"nl", "eoi"} -> def(Def("unit", <<>>, <<>>, id, 0, 0, FALSE), i + 1)
           [] OTHER -> LET b == ReadBody(toks, i + 1) IN def(Def("val", <<>>, b.body, id, 0, 0, FALSE), b.i)

DoUndef(mm, i0) ==
  LET toks == Toks(mm) i == SkipWs(toks, i0) e == WordErr(toks, i) IN
  IF e # "" THEN Fail(mm, e) ELSE Finish([mm EXCEPT !.defs = Del(@, toks[i].t)], i + 1)

\* path up to the closing mark: [i, txt, err]
RECURSIVE IncPath(_, _, _, _)
IncPath(toks, i, close, txt) ==
  LET k == K(toks, i) IN
  IF k = close THEN [i |-> i + 1, txt |-> txt, err |-> ""]
  ELSE IF k = "nl" THEN [i |-> i, txt |-> txt, err |-> "PE13"]
  ELSE IF k = "eoi" THEN [i |-> i, txt |-> txt, err |-> "PE2"]
  ELSE IF k = "end" THEN [i |-> i, txt |-> txt, err |-> ""]
  ELSE IncPath(toks, i + 1, close, txt \o toks[i].t)

KeepConfig(fn) == [x \in {y \in DOMAIN fn : fn[y] = 2} |-> 2]
NewFrame(f, files, sup, flg) == [f |-> f, toks |-> LexFile(files[f], f), i |-> 1, sup |-> sup, flg |-> flg]

\* where an include leads: absolute in the workspace, or from the including file's directory
RECURSIVE Slashes(_)
Slashes(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) = "\\" THEN "/" ELSE Ch(x, 1)) \o Slashes(SubSeq(x, 2, Len(x)))
RECURSIVE Normal(_, _)     \* rest of the path, directory reached so far (ends in /)
Normal(x, dir) ==
  LET k == FirstAt(x, "/", 1) IN
  IF k = 0 THEN dir \o x
  ELSE LET c == SubSeq(x, 1, k - 1) r == SubSeq(x, k + 1, Len(x)) IN
    IF c = "" \/ c = "." THEN Normal(r, dir)
    ELSE IF c = ".." THEN Normal(r, DirName(SubSeq(dir, 1, Len(dir) - 1)))
    ELSE Normal(r, dir \o c \o "/")
Resolve(from, x0) ==
  LET x == Slashes(x0) IN
  IF Ch(x, 1) = "/" THEN Normal(SubSeq(x, 2, Len(x)), "/") ELSE Normal(x, DirName(from))

DoInclude(mm, i0) ==
  LET toks == Toks(mm) i == SkipWs(toks, i0) k == K(toks, i) IN
  IF k \notin {"dq", "la"} THEN Fail(mm, "PE13")
  ELSE LET p == IncPath(toks, i + 1, IF k = "dq" THEN "dq" ELSE "ra", "") IN
    IF p.err # "" THEN Fail(mm, p.err)
    ELSE LET r == RestBlank(toks, p.i)
             path == Resolve(Last(mm.frames).f, p.txt)
         IN IF ~r.ok THEN Fail(mm, "PE14")
            ELSE IF path \notin DOMAIN prog.files THEN Fail(mm, "PE12")
            ELSE LET m1 == At(mm, r.i)
                 IN [m1 EXCEPT !.frames = Append(@, NewFrame(path, prog.files, KeepConfig(Sup(mm)), KeepConfig(Flg(mm))))]

ScopeOf == [line |-> 0, file |-> 1, config |-> 2]
Widen(fn, k, v) == IF k \in DOMAIN fn /\ fn[k] > v THEN fn ELSE Put(fn, k, v)

DoPragma(mm, i0) ==
  LET toks == Toks(mm) i == SkipWs(toks, i0) e == WordErr(toks, i) IN
  IF e # "" THEN Fail(mm, e)
  ELSE IF toks[i].t # "hemtt" THEN At(mm, PastNl(toks, i))
  ELSE LET c == SkipWs(toks, i + 1) e2 == WordErr(toks, c) IN
  IF e2 # "" THEN Fail(mm, e2)
  ELSE IF toks[c].t \notin {"suppress", "flag"} THEN Fail(mm, "PE19")
  ELSE LET d == SkipWs(toks, c + 1) e3 == WordErr(toks, d) IN
  IF e3 # "" THEN Fail(mm, e3)
  ELSE LET s == SkipWs(toks, d + 1)
           hit == K(toks, s) # "word"      \* no scope given: this line
           scope == IF hit THEN "line" ELSE toks[s].t
       IN IF scope \notin DOMAIN ScopeOf THEN Fail(mm, "PE20")
          ELSE LET m1 == IF ~hit THEN Finish(mm, s + 1)
                         ELSE IF K(toks, s) = "eoi" THEN At(mm, s) ELSE At(mm, s + 1)
                   n == Len(m1.frames)
                   code == toks[d].t
               IN IF m1.err # "" THEN m1
                  ELSE IF toks[c].t = "suppress" THEN
                    IF code # "pw3_padded_arg" THEN Fail(m1, "PE21")
                    ELSE [m1 EXCEPT !.frames[n].sup = Widen(@, code, ScopeOf[scope])]
                  ELSE IF code \notin {"pw3_ignore_format", "pe23_ignore_has_include"} THEN Fail(m1, "PE22")
                    ELSE [m1 EXCEPT !.frames[n].flg = Widen(@, code, ScopeOf[scope])]

Command(mm) == LET toks == Toks(mm) IN toks[Last(mm.frames).i + 1].t

\* cursor right after the command word
Directive(mm, c, i) ==
  CASE c = "else" -> DoElse(mm, i)
    [] c = "endif" -> DoEndif(mm, i)
    [] c \in {"if", "ifdef", "ifndef"} /\ ~Reading(mm.ifs) -> At(PushIf(mm, "PC"), PastNl(Toks(mm), i))
    [] c \notin {"else", "endif", "if", "ifdef", "ifndef"} /\ ~Reading(mm.ifs) -> At(mm, PastNl(Toks(mm), i))
    [] c = "if" /\ Reading(mm.ifs) -> DoIf(mm, i)
    [] c = "ifdef" /\ Reading(mm.ifs) -> DoIfdef(mm, i, TRUE)
    [] c = "ifndef" /\ Reading(mm.ifs) -> DoIfdef(mm, i, FALSE)
    [] c = "define" /\ Reading(mm.ifs) -> DoDefine(mm, i)
    [] c = "undef" /\ Reading(mm.ifs) -> DoUndef(mm, i)
    [] c = "include" /\ Reading(mm.ifs) -> DoInclude(mm, i)
    [] c = "pragma" /\ Reading(mm.ifs) -> DoPragma(mm, i)
    [] OTHER -> Fail(mm, "PE4")

----------------------------------------------------------------------------
(* The machine                                                               *)
Start(p) ==
  [frames |-> <<>>, ifs |-> <<>>, defs |-> Empty, stk |-> <<>>, exp |-> <<>>,
   counter |-> 0, buf |-> <<>>, warns |-> <<>>, err |-> "", norap |-> FALSE]

InitWith(p) == prog = p /\ m = Start(p) /\ phase = "load"

Load ==
  /\ phase = "load"
  /\ m' = [m EXCEPT !.frames = <<NewFrame(prog.root, prog.files, Empty, Empty)>>]
  /\ phase' = "run"
  /\ UNCHANGED prog

Running == phase = "run" /\ m.err = "" /\ m.frames # <<>>
Cursor(mm) == Last(mm.frames).i
AtEnd(mm) == K(Toks(mm), Cursor(mm)) \in {"eoi", "end"}
OverLine(fn) == [x \in {y \in DOMAIN fn : fn[y] > 0} |-> fn[x]]
ClearLine(mm) == LET n == Len(mm.frames) IN
  [mm EXCEPT !.frames[n].sup = OverLine(@), !.frames[n].flg = OverLine(@)]

\* where the line's content starts; the blanks before it are output while reading
Lead(mm) == SkipWs(Toks(mm), Cursor(mm))
RECURSIVE OutAll(_, _)
OutAll(b, ts) == IF ts = <<>> THEN b ELSE OutAll(Out(b, Head(ts)), Tail(ts))
WithLead(mm) ==
  IF Reading(mm.ifs)
  THEN [mm EXCEPT !.buf = OutAll(@, SubSeq(Toks(mm), Cursor(mm), Lead(mm) - 1))]
  ELSE mm
IsDirective(mm) == LET i == Lead(mm) IN K(Toks(mm), i) = "hash" /\ K(Toks(mm), i + 1) = "word"

DirectiveLine ==
  /\ Running /\ ~AtEnd(m) /\ IsDirective(m)
  /\ LET i == Lead(m) IN m' = Directive(WithLead(m), Toks(m)[i + 1].t, i + 2)
  /\ UNCHANGED <<prog, phase>>

TextLine ==
  /\ Running /\ ~AtEnd(m) /\ ~IsDirective(m) /\ Reading(m.ifs)
  /\ LET m1 == WithLead(m)
         r == Walk([m1 EXCEPT !.buf = <<>>], Toks(m), Lead(m), Toks(m)[1], "", FALSE, TRUE, m1.buf)
     IN m' = IF r.m.err # "" THEN r.m ELSE ClearLine(At([r.m EXCEPT !.buf = r.b], r.i))
  /\ UNCHANGED <<prog, phase>>

SkippedLine ==
  /\ Running /\ ~AtEnd(m) /\ ~IsDirective(m) /\ ~Reading(m.ifs)
  /\ m' = ClearLine(At(m, PastNl(Toks(m), Lead(m))))
  /\ UNCHANGED <<prog, phase>>

EndOfFile ==
  /\ Running /\ AtEnd(m) /\ Len(m.frames) > 1
  /\ m' = [m EXCEPT !.frames = Front(@)]
  /\ UNCHANGED <<prog, phase>>

EndOfInput ==
  /\ Running /\ AtEnd(m) /\ Len(m.frames) = 1
  /\ m' = IF m.ifs # <<>> THEN Fail(m, "PE18") ELSE m
  /\ phase' = "done"
  /\ UNCHANGED prog

Failed ==
  /\ phase = "run" /\ m.err # ""
  /\ phase' = "done"
  /\ UNCHANGED <<prog, m>>

Next == Load \/ DirectiveLine \/ TextLine \/ SkippedLine \/ EndOfFile \/ EndOfInput \/ Failed

----------------------------------------------------------------------------
(* What can be observed at the end                                           *)

\* leaves of the output that have text; a join outside of quotes vanishes
RECURSIVE Leaves(_, _, _)
Leaves(ts, sstk, acc) ==
  IF ts = <<>> THEN [sstk |-> sstk, ts |-> acc]
  ELSE LET t == Head(ts)
           s2 == CASE t.k = "dq" -> IF sstk # <<>> /\ Last(sstk) = "d" THEN Front(sstk) ELSE Append(sstk, "d")
                   [] t.k = "sq" -> IF sstk # <<>> /\ Last(sstk) = "s" THEN Front(sstk) ELSE Append(sstk, "s")
                   [] OTHER -> sstk
           drop == t.t = "" \/ (t.t = "##" /\ s2 = <<>>)
       IN Leaves(Tail(ts), s2, IF drop THEN acc ELSE Append(acc, t))

RECURSIVE Render(_, _, _)
Render(buf, sstk, acc) ==        \* buffer pieces -> [root, ts] with only visible tokens
  IF buf = <<>> THEN acc
  ELSE LET l == Leaves(Head(buf).ts, sstk, <<>>)
       IN Render(Tail(buf), l.sstk, Append(acc, [root |-> Head(buf).root, ts |-> l.ts, x |-> Texts(l.ts)]))

RECURSIVE CatX(_)
CatX(ps) == IF ps = <<>> THEN "" ELSE Head(ps).x \o CatX(Tail(ps))

\* where each piece / each leaf of the output starts and which source token it shows
RECURSIVE MapsFrom(_, _, _)
MapsFrom(ps, at, acc) ==
  IF ps = <<>> THEN acc
  ELSE IF Head(ps).x = "" THEN MapsFrom(Tail(ps), at, acc)
  ELSE MapsFrom(Tail(ps), at + Len(Head(ps).x),
         Append(acc, <<at, Head(ps).root.f, Head(ps).root.l, Head(ps).root.s>>))
RECURSIVE LeafMaps(_, _, _)
LeafMaps(ts, at, acc) ==
  IF ts = <<>> THEN acc
  ELSE LeafMaps(Tail(ts), at + Len(Head(ts).t), Append(acc, <<at, Head(ts).f, Head(ts).l, Head(ts).s>>))

WarnText(w) == w.c \o ":" \o w.t.f \o ":" \o ToString(w.t.l)
Obs(mm) ==
  IF mm.err # "" THEN [err |-> mm.err]
  ELSE LET ps == Render(mm.buf, <<>>, <<>>) IN
    [out |-> CatX(ps), norapify |-> mm.norap,
     warn |-> [i \in 1..Len(mm.warns) |-> WarnText(mm.warns[i])],
     maps |-> MapsFrom(ps, 0, <<>>),
     leaves |-> LeafMaps(Flat([i \in 1..Len(ps) |-> ps[i].ts]), 0, <<>>)]
=============================================================================
