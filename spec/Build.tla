-------------------------------- MODULE Build --------------------------------
(* What the commands build, dev, check, release and script make of a project. *)
(*                                                                            *)
(* A project is a function from paths to files; a file has a text (t), a kind *)
(* (k) and what the kind needs:                                               *)
(*   text                                                                     *)
(*   proj    settings of the project           addon  settings of an addon    *)
(*   prefix  pfx: the prefix it sets           ver    ver: the version it has *)
(*   cfg, sqf, hpp   m: a mark in it, inc: the files it includes              *)
(*   heldcfg         configuration that must stay text (it asks __has_include)*)
(*   badcfg, badsqf, badxml, badproj           faulty                         *)
(*   force   settings of CBA, in a .sqf that is none                          *)
(*   bom     begins with a byte order mark                                    *)
(*   hook    ops: what the script does, in order; scripts below .hemtt/scripts *)
(*           are of the same kind                                             *)
(* A run of a command sees the project below a layer in memory (mem, gone):   *)
(* hooks write to it, and configuration and scripts are compiled into it.     *)
EXTENDS Str, FiniteSets, TLC

Over(f, g) == g @@ f
Without(f, D) == [p \in DOMAIN f \ D |-> f[p]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
NoFiles == [p \in {} |-> ""]
Say(b, s) == IF b THEN s ELSE ""

(* ------------------------------------------------------------ patterns --- *)
\* sep: "*" and "?" do not stand for "/", and case does not matter (files to include, and
\* configuration to keep) - or they do and it does (files to exclude)
RECURSIVE Fits(_, _, _, _, _)
Fits(p, i, s, j, sep) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF At(p, i) = "*" /\ At(p, i + 1) = "*" THEN
    IF i + 1 = Len(p) THEN TRUE
    ELSE \E k \in {j} \cup {x + 1 : x \in {y \in j..Len(s) : At(s, y) = "/"}} : Fits(p, i + 3, s, k, sep)
  ELSE IF At(p, i) = "*" THEN
    \E k \in j..(Len(s) + 1) : (~sep \/ \A x \in j..(k - 1) : At(s, x) # "/") /\ Fits(p, i + 1, s, k, sep)
  ELSE IF At(p, i) = "?" THEN j <= Len(s) /\ (~sep \/ At(s, j) # "/") /\ Fits(p, i + 1, s, j + 1, sep)
  ELSE At(s, j) = At(p, i) /\ Fits(p, i + 1, s, j + 1, sep)
Glob(p, s, sep) == IF sep THEN Fits(LowS(p), 1, LowS(s), 1, sep) ELSE Fits(p, 1, s, 1, sep)
AnyGlob(ps, s, sep) == \E i \in 1..Len(ps) : Glob(ps[i], s, sep)

(* --------------------------------------------------------------- paths --- *)
RECURSIVE LastAt(_, _, _)
LastAt(s, c, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = c THEN i ELSE LastAt(s, c, i - 1)
NameOf(p) == Rest(p, LastAt(p, "/", Len(p)))
ExtOf(p) == LET n == NameOf(p) d == LastAt(n, ".", Len(n)) IN IF d <= 1 THEN "" ELSE Rest(n, d)
WithExt(p, e) == LET n == NameOf(p) d == LastAt(n, ".", Len(n)) IN SubSeq(p, 1, Len(p) - Len(n)) \o (IF d <= 1 THEN n ELSE SubSeq(n, 1, d - 1)) \o "." \o e

(* -------------------------------------------------------------- addons --- *)
PrefixNames == {"$pboprefix$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$"}
PrefixFiles == PrefixNames \cup {"$PBOPREFIX$", "$PBOPREFIX$.TXT", "PBOPREFIX.TXT", "$PREFIX$"}
Places == {"addons", "optionals"}
\* the folders below addons/ and optionals/
AddonsOf(src) ==
  {[loc |-> SplitS(p, "/")[2], name |-> SplitS(p, "/")[3]] :
     p \in {q \in DOMAIN src : LET w == SplitS(q, "/") IN Len(w) >= 4 /\ w[2] \in Places}}
FolderOf(a) == "/" \o a.loc \o "/" \o a.name
InAddon(a, p) == Starts(p, FolderOf(a) \o "/")
Inside(a, p) == Rest(p, Len(FolderOf(a)) + 1)
HasPrefix(src, a) == \E n \in PrefixFiles : (FolderOf(a) \o "/" \o n) \in DOMAIN src
ScanFails(src) ==
  LET A == AddonsOf(src) IN
  \/ \E a \in A : ~HasPrefix(src, a)
  \/ \E a, b \in A : a # b /\ LowS(a.name) = LowS(b.name)
PlainToml == [rap |-> TRUE, rexcl |-> <<>>, fexcl |-> <<>>, props |-> NoFiles]
TomlOf(src, a) == LET p == FolderOf(a) \o "/addon.toml" IN IF p \in DOMAIN src THEN src[p] ELSE PlainToml

ProjectFile == "/.hemtt/project.toml"
FolderName(P) == IF P.folder = "" THEN P.prefix ELSE P.folder
VersionIn(V, P) == IF P.ver # "" THEN P.ver
                   ELSE IF P.vpath \in DOMAIN V /\ V[P.vpath].k = "ver" THEN V[P.vpath].ver ELSE ""

(* --------------------------------------------------- one run: its state --- *)
\* src: the project on disk; mem, gone: the layer above; out: what the folder of the command holds
\* the folder include lies below the project, as if it were the root
Shared(src) == [p \in {Rest(q, 8) : q \in {x \in DOMAIN src : Starts(x, "/include/")}} |-> src["/include" \o p]]
Vfs(r) == Over(Without(Over(r.src, Shared(r.src)), r.gone), r.mem)
WriteMem(r, p, f) == [r EXCEPT !.mem = Over(@, p :> f), !.gone = @ \ {p}]
WriteSrc(r, p, f) == [r EXCEPT !.src = Over(@, p :> f)]
WriteOut(r, p, c) == [r EXCEPT !.out = Over(@, p :> c)]
TextC(t) == [is |-> "text", text |-> t]
Content(f) == IF f.k \in {"rapified", "compiled"} THEN [is |-> f.k, marks |-> f.marks] ELSE TextC(f.t)
PlainFile(t) == [k |-> "text", t |-> t]

(* --------------------------------------------------------------- hooks --- *)
\* the version a script is told is the one at its beginning
RECURSIVE DoOps(_, _, _, _, _, _)
DoOps(r, ops, i, P, cmd, ver) ==
  IF i > Len(ops) THEN [r |-> r, fails |-> FALSE]
  ELSE LET o == ops[i]
           go(q) == DoOps(q, ops, i + 1, P, cmd, ver)
       IN CASE o.op = "vfs" -> go(WriteMem(r, o.path, o.file))
            [] o.op = "rfs" -> go(WriteSrc(r, o.path, o.file))
            [] o.op = "out" -> go(WriteOut(r, Rest(o.path, 1), TextC(o.text)))
            [] o.op = "del" -> IF o.path \in DOMAIN Vfs(r) THEN go([r EXCEPT !.gone = @ \cup {o.path}, !.mem = Without(@, {o.path})])
                                 ELSE [r |-> r, fails |-> TRUE]     \* nothing to remove
            [] o.op = "tell" -> go(WriteMem(r, o.path, PlainFile(cmd \o " " \o ver \o " " \o P.prefix)))
            \* files are copied and moved to where none is
            [] o.op \in {"copy", "move"} ->
                 IF o.from \notin DOMAIN Vfs(r) \/ o.path \in DOMAIN Vfs(r) THEN [r |-> r, fails |-> TRUE]
                 ELSE LET q == WriteMem(r, o.path, Vfs(r)[o.from]) IN
                      go(IF o.op = "copy" THEN q ELSE [q EXCEPT !.gone = @ \cup {o.from}, !.mem = Without(@, {o.from})])
            [] o.op = "cat" -> IF o.from \notin DOMAIN Vfs(r) THEN [r |-> r, fails |-> TRUE]
                               ELSE go(WriteOut(r, Rest(o.path, 1), TextC(Vfs(r)[o.from].t)))
            [] o.op = "only" -> IF cmd \in SetOf(o.cmds) THEN DoOps(r, <<o.do>> \o SubSeq(ops, i + 1, Len(ops)), 1, P, cmd, ver) ELSE go(r)
            \* another script: what it does, it does; when it fails, so does this one
            [] o.op = "script" ->
                 LET p == "/.hemtt/scripts/" \o o.name \o ".rhai" IN
                 IF p \notin DOMAIN Vfs(r) THEN [r |-> r, fails |-> TRUE]
                 ELSE LET d == DoOps(r, Vfs(r)[p].ops, 1, P, cmd, VersionIn(Vfs(r), P)) IN
                      IF d.fails THEN d ELSE DoOps(d.r, ops, i + 1, P, cmd, ver)
            [] o.op = "throw" -> [r |-> r, fails |-> TRUE]          \* nothing after it
            [] o.op = "fatal" -> [r |-> go(r).r, fails |-> TRUE]    \* the script goes on
            [] OTHER -> go(r)
HookDir(phase) == "/.hemtt/hooks/" \o phase \o "/"
HooksOf(V, phase) == {p \in DOMAIN V : Starts(p, HookDir(phase)) /\ ~Contains(Rest(p, Len(HookDir(phase))), "/")}
RECURSIVE FirstOf(_, _)
FirstOf(S, p) == IF \A q \in S : ~LessS(q, p) THEN p ELSE FirstOf(S, CHOOSE q \in S : LessS(q, p))
RECURSIVE DoHooks(_, _, _, _, _)
\* all scripts of the folder run, by name, whatever became of the ones before
DoHooks(r, H, P, cmd, failed) ==
  IF H = {} THEN [r |-> r, fails |-> failed]
  ELSE LET h == FirstOf(H, CHOOSE p \in H : TRUE)
           d == DoOps(r, Vfs(r)[h].ops, 1, P, cmd, VersionIn(Vfs(r), P))
       IN DoHooks(d.r, H \ {h}, P, cmd, failed \/ d.fails)
Hooks(r, phase, P, cmd) == DoHooks(r, HooksOf(Vfs(r), phase), P, cmd, FALSE)
Phases == {"pre_build", "post_build", "pre_release", "post_release"}
UnreadableHook(src) == \E ph \in Phases : \E p \in HooksOf(src, ph) : src[p].k = "badhook"

(* ------------------------------------------------------------ compiling --- *)
RECURSIVE Marks(_, _, _)
Marks(V, p, n) == {V[p].m} \cup (IF n = 0 THEN {} ELSE UNION {IF V[p].inc[i] \in DOMAIN V THEN Marks(V, V[p].inc[i], n - 1) ELSE {} : i \in 1..Len(V[p].inc)})
RECURSIVE Lacks(_, _, _)
Lacks(V, p, n) == n > 0 /\ \E i \in 1..Len(V[p].inc) : V[p].inc[i] \notin DOMAIN V \/ Lacks(V, V[p].inc[i], n - 1)
Scripts(V, A) == {p \in DOMAIN V : (\E a \in A : InAddon(a, p)) /\ ExtOf(p) = "sqf" /\ ~Ends(p, ".inc.sqf")}
ScriptFails(V, p) == V[p].k = "badsqf" \/ (V[p].k = "sqf" /\ Lacks(V, p, 3))
Compiled(V, A) ==
  LET S == {p \in Scripts(V, A) : V[p].k = "sqf"} IN
  [q \in {WithExt(p, "sqfc") : p \in S} |-> [k |-> "compiled", marks |-> Marks(V, CHOOSE p \in S : WithExt(p, "sqfc") = q, 3)]]
\* configuration: every .cpp, .rvmat and .ext of an addon that is not kept from it
Configs(V, src, A) ==
  {p \in DOMAIN V : /\ ExtOf(p) \in {"cpp", "rvmat", "ext"}
                    /\ \E a \in A : InAddon(a, p) /\ TomlOf(src, a).rap /\ ~AnyGlob(TomlOf(src, a).rexcl, Inside(a, p), TRUE)}
ConfigFails(V, p) == V[p].k = "badcfg" \/ (V[p].k \in {"cfg", "heldcfg"} /\ Lacks(V, p, 3))
BinOf(p) == IF ExtOf(p) = "cpp" THEN WithExt(p, "bin") ELSE p
Rapified(V, C) ==
  LET S == {p \in C : V[p].k = "cfg"} IN
  [q \in {BinOf(p) : p \in S} |-> [k |-> "rapified", marks |-> Marks(V, CHOOSE p \in S : BinOf(p) = q, 3)]]

(* ------------------------------------------------------------- packing --- *)
Packed(V, src, P, a) ==
  {p \in DOMAIN V : /\ InAddon(a, p)
                    /\ ~(NameOf(p) = "config.cpp" /\ WithExt(p, "bin") \in DOMAIN V)
                    /\ NameOf(p) # "addon.toml"
                    /\ ~AnyGlob(P.exclude, p, FALSE) /\ ~AnyGlob(P.exclude, Rest(p, 1), FALSE)
                    /\ ~AnyGlob(TomlOf(src, a).fexcl, Inside(a, p), FALSE)}
IsPrefix(p) == LowS(NameOf(p)) \in PrefixNames
PboOf(V, src, P, a) ==
  LET D == Packed(V, src, P, a)
      F == {p \in D : ~IsPrefix(p)}
      Own == [version |-> VersionIn(V, P)]
      Pre == IF \E p \in D : IsPrefix(p) THEN "prefix" :> V[CHOOSE p \in D : IsPrefix(p)].pfx ELSE NoFiles
  IN [is |-> "pbo",
      props |-> Over(Over(Over(Own, Pre), P.props), TomlOf(src, a).props),
      files |-> [n \in {Swap(Inside(a, p), "/", "\\") : p \in F} |-> Content(V[CHOOSE p \in F : Swap(Inside(a, p), "/", "\\") = n])]]
PboName(P, a) == P.prefix \o "_" \o a.name
OptMod(P, a) == "optionals/@" \o FolderName(P) \o "_" \o a.name
PboPath(P, a, cmd) ==
  IF cmd = "dev" \/ a.loc = "addons" THEN "addons/" \o PboName(P, a) \o ".pbo"
  ELSE IF P.optmods THEN OptMod(P, a) \o "/addons/" \o PboName(P, a) \o ".pbo"
  ELSE "optionals/" \o PboName(P, a) \o ".pbo"
Pbos(V, src, P, A, cmd) == [q \in {PboPath(P, a, cmd) : a \in A} |-> PboOf(V, src, P, CHOOSE a \in A : PboPath(P, a, cmd) = q)]
Links(A, cmd) == IF cmd # "dev" THEN NoFiles
                 ELSE [q \in {"addons/" \o a.name : a \in A} |-> LET a == CHOOSE b \in A : q = "addons/" \o b.name IN [is |-> "link", to |-> Rest(FolderOf(a), 1)]]

(* ----------------------------------------------------- files beside them --- *)
Always == {"/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"}
Rooted(p) == IF At(p, 1) = "/" THEN p ELSE "/" \o p
Wanted(V, P) == {p \in DOMAIN V : ~Starts(p, "/.hemtt") /\ (p \in Always \/ \E i \in 1..Len(P.include) : Glob(Rooted(P.include[i]), p, TRUE))}
\* what lies below a link to its source is there already
Copied(V, P, links) == LET W == {p \in Wanted(V, P) : ~\E l \in links : Starts(p, "/" \o l \o "/")} IN
                   [q \in {Rest(p, 1) : p \in W} |-> Content(V["/" \o q])]

(* ------------------------------------------------------------- signing --- *)
Authority(V, P) == (IF P.authority = "" THEN P.prefix ELSE P.authority) \o "_" \o VersionIn(V, P)
OwnKey(P, a) == a.loc = "optionals" /\ P.optmods
AuthOf(V, P, a) == Authority(V, P) \o (IF OwnKey(P, a) THEN "_" \o PboName(P, a) ELSE "")
SignsOf(V, P, A) ==
  LET at(a) == PboPath(P, a, "release") \o "." \o AuthOf(V, P, a) \o ".bisign"
      keyAt(a) == (IF OwnKey(P, a) THEN OptMod(P, a) \o "/" ELSE "") \o "keys/" \o AuthOf(V, P, a) \o ".bikey"
      Key(auth) == [is |-> "key", authority |-> auth]
      signs == [q \in {at(a) : a \in A} |-> LET a == CHOOSE b \in A : at(b) = q IN
                  [is |-> "sign", authority |-> AuthOf(V, P, a), version |-> P.sv, of |-> PboPath(P, a, "release"), good |-> TRUE]]
      keys == [q \in {keyAt(a) : a \in A} |-> Key(AuthOf(V, P, CHOOSE b \in A : keyAt(b) = q))]
  IN Over(Over(signs, keys), ("keys/" \o Authority(V, P) \o ".bikey") :> Key(Authority(V, P)))
\* the archive holds the folder, below the name of the mod
Archive(out, P) ==
  LET n == "@" \o FolderName(P) \o "/" IN
  [is |-> "zip", files |-> [q \in {n \o p : p \in DOMAIN out} |->
      LET c == out[Rest(q, Len(n))] IN IF c.is = "sign" THEN [c EXCEPT !.of = n \o @] ELSE c]]

(* -------------------------------------------------------- which addons --- *)
\* c: the command line: cmd, just, opts, allopts, norap, nosign, noarch, name (of a script)
Excluded(P, a) == \E i \in 1..Len(P.devexcl) : Starts(Rest(FolderOf(a), 1) \o "/", P.devexcl[i] \o "/")
Chosen(src, P, c) ==
  {a \in AddonsOf(src) :
     /\ c.just # <<>> => \E i \in 1..Len(c.just) : LowS(c.just[i]) = LowS(a.name)
     /\ c.cmd = "dev" => /\ a.loc = "optionals" => c.allopts \/ a.name \in SetOf(c.opts)
                         /\ ~Excluded(P, a)}
\* an addon of nothing but a file that is not packed cannot be signed
Bare(src, a) ==
  LET Top == {SplitS(Inside(a, p), "/")[1] : p \in {q \in DOMAIN src : InAddon(a, q)}} IN
  Cardinality(Top) = 1 /\ \A n \in Top : LowS(n) \in PrefixNames
Marked(src) == {p \in DOMAIN src : src[p].k = "bom" /\ SplitS(p, "/")[2] \in Places /\ ExtOf(p) \notin {"", "p3d", "rtm", "bin", "paa"}}

(* ------------------------------------------------------------ a command --- *)
\* S: src; out: for every command run so far what its folder holds; rel: the archives
Result(S, cmd, r, rel, code) == [S |-> [src |-> r.src, out |-> Over(S.out, cmd :> r.out), rel |-> rel], code |-> code]
Signing(P, c) == c.cmd = "release" /\ ~c.nosign /\ P.sign
Archiving(P, c) == c.cmd = "release" /\ ~c.noarch /\ P.archive

Finish(S, P, c, r) ==      \* release only: everything is built
  LET h == Hooks(r, "pre_release", P, c.cmd) IN
  IF h.fails THEN Result(S, c.cmd, h.r, S.rel, 1)
  ELSE LET V == Vfs(h.r)
           r2 == IF Signing(P, c) THEN [h.r EXCEPT !.out = Over(@, SignsOf(V, P, Chosen(S.src, P, c)))] ELSE h.r
           z == Archive(r2.out, P)
           rel == IF Archiving(P, c) THEN Over(S.rel, (P.prefix \o "-latest.zip") :> z @@ (P.prefix \o "-" \o VersionIn(V, P) \o ".zip") :> z) ELSE S.rel
           l == Hooks(r2, "post_release", P, c.cmd)
       IN Result(S, c.cmd, l.r, rel, IF l.fails THEN 1 ELSE 0)

\* A and the settings of addons are those read at the start (S.src)
Assemble(S, P, c, A, r) ==
  LET V == Vfs(r)
      L == Links(A, c.cmd)
      r1 == [r EXCEPT !.out = Over(Over(@, L), Pbos(V, S.src, P, A, c.cmd))]
      h == Hooks(r1, "post_build", P, c.cmd)
  IN IF h.fails THEN Result(S, c.cmd, h.r, S.rel, 1)
     ELSE LET r2 == [h.r EXCEPT !.out = Over(@, Copied(Vfs(h.r), P, {q \in DOMAIN h.r.out : h.r.out[q].is = "link"}))] IN
          IF c.cmd = "release" THEN Finish(S, P, c, r2) ELSE Result(S, c.cmd, r2, S.rel, 0)

Compile(S, P, c, A, r) ==
  LET V == Vfs(r) IN
  IF \E p \in DOMAIN V : NameOf(p) = "stringtable.xml" /\ V[p].k = "badxml" /\ SplitS(p, "/")[2] \in Places THEN Result(S, c.cmd, r, S.rel, 1)
  ELSE IF \E p \in Scripts(V, A) : ScriptFails(V, p) THEN Result(S, c.cmd, r, S.rel, 1)
  ELSE LET C == IF c.norap THEN {} ELSE Configs(V, S.src, A) IN
       IF \E p \in C : ConfigFails(V, p) THEN Result(S, c.cmd, r, S.rel, 1)
       ELSE LET N == Over(Compiled(V, A), Rapified(V, C)) IN
            IF c.cmd = "check" THEN Result(S, c.cmd, r, S.rel, 0)
            ELSE Assemble(S, P, c, A, [r EXCEPT !.mem = Over(@, N), !.gone = @ \ DOMAIN N])

Run(S, c) ==
  IF ProjectFile \notin DOMAIN S.src \/ S.src[ProjectFile].k # "proj" THEN [S |-> S, code |-> 1]
  ELSE
  LET P == S.src[ProjectFile]
      A == Chosen(S.src, P, c)
      kept == c.just # <<>> /\ c.cmd \in DOMAIN S.out
      r == [src |-> S.src, mem |-> NoFiles, gone |-> {}, out |-> IF kept THEN S.out[c.cmd] ELSE NoFiles]
      stop == Result(S, c.cmd, r, S.rel, 1)
  IN IF VersionIn(S.src, P) = "" THEN stop
     ELSE IF ScanFails(S.src) THEN stop
     ELSE IF c.cmd = "script" THEN
       LET p == "/.hemtt/scripts/" \o c.name \o ".rhai" IN
       IF p \notin DOMAIN S.src THEN stop
       ELSE LET d == DoOps(r, S.src[p].ops, 1, P, c.cmd, VersionIn(S.src, P)) IN Result(S, c.cmd, d.r, S.rel, IF d.fails THEN 1 ELSE 0)
     ELSE IF \E o \in SetOf(c.opts) : ~\E a \in A : a.name = o THEN stop
     ELSE IF UnreadableHook(S.src) THEN stop
     ELSE IF Marked(S.src) # {} THEN stop
     ELSE IF Signing(P, c) /\ \E a \in A : Bare(S.src, a) THEN stop
     ELSE LET h == Hooks(r, "pre_build", P, c.cmd) IN
          IF h.fails THEN Result(S, c.cmd, h.r, S.rel, 1) ELSE Compile(S, P, c, A, h.r)

\* edits of the project between commands
Edit(S, o) == IF o.op = "del" THEN [S EXCEPT !.src = Without(@, {o.path})] ELSE [S EXCEPT !.src = Over(@, o.path :> o.file)]
Start(src) == [src |-> src, out |-> NoFiles, rel |-> NoFiles]
=============================================================================
