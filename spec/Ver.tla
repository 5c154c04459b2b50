-------------------------------- MODULE Ver --------------------------------
(* Versions: reading, printing, comparing; the script file; the project's     *)
(* version with its cache. A version is                                       *)
(*   [major, minor, patch, build, hash]  build, hash: <<>> or <<x>>           *)
EXTENDS Str

None == <<>>
V(a, b, c, build, hash) == [major |-> a, minor |-> b, patch |-> c, build |-> build, hash |-> hash]
Err(e) == [err |-> e]
IsErr(x) == "err" \in DOMAIN x

\* numbers of up to 32 bits; those above TLC's integers are kept as text
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN NoZeros(Rest(s, 1)) ELSE s
MaxU32 == "4294967295"
IsNum(s) == /\ s # "" /\ AllDigits(s)
            /\ LET n == NoZeros(s) IN Len(n) < 10 \/ (Len(n) = 10 /\ ~LessS(MaxU32, n))
Num(s) == NoZeros(s)
LessNum(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessS(a, b))

\* what follows a second dash ("1.10.1-local-debug") is not part of it
Parse(text) ==
  IF text = "" THEN Err("unknown")
  ELSE LET dash == FindFrom(text, "-", 1)
           parts == SplitS(IF dash = 0 THEN text ELSE SubSeq(text, 1, dash - 1), ".")
       IN IF ~IsNum(parts[1]) THEN Err("component")
          ELSE IF Len(parts) < 2 THEN Err("minor")
          ELSE IF ~IsNum(parts[2]) THEN Err("component")
          ELSE IF Len(parts) < 3 THEN Err("patch")
          ELSE IF ~IsNum(parts[3]) THEN Err("component")
          ELSE IF Len(parts) > 3 /\ ~IsNum(parts[4]) THEN Err("component")
          ELSE IF Len(parts) > 4 THEN Err("component")
          ELSE V(Num(parts[1]), Num(parts[2]), Num(parts[3]),
                 IF Len(parts) > 3 THEN <<Num(parts[4])>> ELSE None,
                 IF dash = 0 THEN None ELSE <<SplitS(Rest(text, dash), "-")[1]>>)
Printed(v) == v.major \o "." \o v.minor \o "." \o v.patch
            \o (IF v.build = None THEN "" ELSE "." \o v.build[1])
            \o (IF v.hash = None THEN "" ELSE "-" \o v.hash[1])

\* a decimal of the game with two places, as n.dd
Decimal(text) == LET p == SplitS(text, ".") IN V(Num(p[1]), Num(p[2]), "0", None, None)

Cmp(a, b) ==
  LET c(x, y) == IF x = y THEN 0 ELSE IF LessNum(x, y) THEN -1 ELSE 1
      build == IF a.build = b.build THEN 0 ELSE IF a.build = None THEN -1 ELSE IF b.build = None THEN 1 ELSE c(a.build[1], b.build[1])
  IN IF a.major # b.major THEN c(a.major, b.major)
     ELSE IF a.minor # b.minor THEN c(a.minor, b.minor)
     ELSE IF a.patch # b.patch THEN c(a.patch, b.patch)
     ELSE build

----------------------------------------------------------------------------
(* The script file: #define MAJOR 1 and so on, one per line                   *)
LineOf(lines, what) ==
  LET hit == {i \in 1..Len(lines) : Starts(lines[i], "#define " \o what)} IN
  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
RECURSIVE LastBlank(_)
LastBlank(s) == IF s = "" THEN 0 ELSE IF At(s, Len(s)) = " " THEN Len(s) ELSE LastBlank(SubSeq(s, 1, Len(s) - 1))
Component(lines, what, missing) ==
  LET i == LineOf(lines, what) IN
  IF i = 0 THEN Err(missing)
  ELSE LET l == lines[i]
           at == FindFrom(l, "//", 1)
           t == TrimS(IF at = 0 THEN l ELSE SubSeq(l, 1, at - 1))
           k == LastBlank(t)
           w == Rest(t, k)
       IN IF k = 0 THEN Err(missing) ELSE IF IsNum(w) THEN [num |-> Num(w)] ELSE Err("component")
Script(text) ==
  LET raw == LinesOf(text)
      lines == [i \in 1..Len(raw) |-> TrimS(raw[i])]
      a == Component(lines, "MAJOR", "major") b == Component(lines, "MINOR", "minor")
      c == Component(lines, "PATCH", "patch") d == Component(lines, "BUILD", "build")
  IN IF IsErr(a) THEN a ELSE IF IsErr(b) THEN b ELSE IF IsErr(c) THEN c
     ELSE V(a.num, b.num, c.num, IF IsErr(d) THEN None ELSE <<d.num>>, None)

----------------------------------------------------------------------------
(* The project's version. conf has some of path, major, minor, patch, build.  *)
Has(r, f) == f \in DOMAIN r
Parts == {"major", "minor", "patch", "build"}
ConfError(conf) ==
  IF Has(conf, "path") /\ \E f \in Parts : Has(conf, f) THEN "conflict"
  ELSE IF ~Has(conf, "major") /\ \E f \in Parts : Has(conf, f) THEN "major"
  ELSE IF Has(conf, "major") /\ ~Has(conf, "minor") THEN "minor"
  ELSE IF Has(conf, "major") /\ ~Has(conf, "patch") THEN "patch"
  ELSE ""
PathOf(conf) == IF Has(conf, "path") THEN Swap(conf.path, "\\", "/") ELSE "addons/main/script_version.hpp"

\* what the files say now, files being a function from paths to contents
Said(conf, files) ==
  IF Has(conf, "major")
  THEN V(conf.major, conf.minor, conf.patch, IF Has(conf, "build") THEN <<conf.build>> ELSE None, None)
  ELSE IF PathOf(conf) \in DOMAIN files THEN Script(files[PathOf(conf)]) ELSE Err("unknown")
\* and with the first characters of the commit; head is "" where there is none
HashLen(conf) == IF Has(conf, "git_hash") THEN NumOf(conf.git_hash) ELSE 8
Now(conf, files, head) ==
  LET v == Said(conf, files) n == HashLen(conf) IN
  IF IsErr(v) \/ n = 0 THEN v
  ELSE IF head = "" THEN Err("git")
  ELSE [v EXCEPT !.hash = <<SubSeq(head, 1, IF n > Len(head) THEN Len(head) ELSE n)>>]

\* cache: <<>> or <<v>>. A request answers and fills it.
Get(conf, files, head, cache) == IF cache # <<>> THEN cache[1] ELSE Now(conf, files, head)
Filled(answer, cache) == IF cache # <<>> THEN cache ELSE IF IsErr(answer) THEN <<>> ELSE <<answer>>
=============================================================================
