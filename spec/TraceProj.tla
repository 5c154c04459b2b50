------------------------------ MODULE TraceProj ------------------------------
(* Recorded answers about prefix files, versions and projects, judged.        *)
EXTENDS Proj, Prefix, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O

ErrIs(o, e) == "err" \in DOMAIN o /\ o.err = e
SameVersion(v, o) ==
  /\ "print" \in DOMAIN o /\ o.print = Printed(v) /\ o.again /\ o.stored
  /\ o.major = v.major /\ o.minor = v.minor /\ o.patch = v.patch
  /\ ("build" \in DOMAIN o) = (v.build # None) /\ (v.build # None => o.build = v.build[1])
SameAnswer(v, o) == IF IsErr(v) THEN ErrIs(o, v.err) ELSE SameVersion(v, o)

PrefixName(e) == IF e = "empty" THEN "Empty" ELSE "InvalidPrefix"
PrefixOk ==
  LET p == PrefixOf(Case.text) IN
  IF ~p.ok THEN ErrIs(O, PrefixName(p.err))
  ELSE /\ "parts" \in DOMAIN O /\ O.parts = p.parts /\ O.shown = Shown(p) /\ O.main = p.parts[1]
       /\ ("mod" \in DOMAIN O) = (Len(p.parts) > 1) /\ (Len(p.parts) > 1 => O.mod = p.parts[2])
       /\ ((\A i \in 1..Len(p.parts) : p.parts[i] # "") => O.path = JoinS(p.parts, "/"))
       /\ (~Contains(Shown(p), "=") => O.again)

OrderOk ==
  LET v == [i \in 1..Len(Case.texts) |-> Parse(Case.texts[i])] IN
  \A i, j \in 1..Len(v) : O.cmp[i][j] = Cmp(v[i], v[j]) /\ O.eq[i][j] = (v[i] = v[j])

\* a history: state by state
NoFiles == [p \in {} |-> ""]
With(files, op) == [p \in (DOMAIN files \cup {op.path}) \ (IF op.op = "remove" THEN {op.path} ELSE {}) |-> IF p = op.path THEN op.text ELSE files[p]]
RECURSIVE Follows(_, _, _, _)
Follows(i, n, files, cache) ==
  IF i > Len(Case.hist) THEN Len(O.out) = n
  ELSE LET op == Case.hist[i] IN
    CASE op.op = "get" -> LET a == Get(Case.conf, files, O.head, cache) IN
                          /\ n < Len(O.out) /\ SameAnswer(a, O.out[n + 1])
                          /\ Follows(i + 1, n + 1, files, Filled(a, cache))
      [] op.op = "invalidate" -> Follows(i + 1, n, files, <<>>)
      [] OTHER -> Follows(i + 1, n, With(files, op), cache)
HistoryOk ==
  LET e == ConfError(Case.conf) IN
  IF e # "" THEN ErrIs(O, e) ELSE "out" \in DOMAIN O /\ (O.head # "") = Case.repo /\ Follows(1, 0, NoFiles, <<>>)

Good == /\ ~Broken
        /\ CASE Case.kind = "prefix" -> PrefixOk
             [] Case.kind = "version" -> SameAnswer(Parse(Case.text), O)
             [] Case.kind = "float" -> SameAnswer(Decimal(Case.text), O)
             [] Case.kind = "script" -> SameAnswer(Script(Case.text), O)
             [] Case.kind = "order" -> OrderOk
             [] Case.kind = "history" -> HistoryOk
             [] Case.kind = "malformed" -> "err" \in DOMAIN O
             [] Case.kind = "project" -> SameLoad(Case, O)
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson([i |-> c, v |-> IF Good THEN "ok" ELSE "bad"]))
=============================================================================
