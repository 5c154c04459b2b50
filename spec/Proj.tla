-------------------------------- MODULE Proj --------------------------------
(* Project files. What is written is                                          *)
(*   project: name, prefix, and optionally mainprefix, version, properties,   *)
(*            include, exclude, lints, check_pdrive, dev_exclude, launch,     *)
(*            optional_mod_folders, build_pdrive, folder, sign, archive,      *)
(*            signing, authority                                              *)
(*   launchfile, lintsfile: "none", or "headed" (its entries are under a      *)
(*            heading of the project file), or what it says                   *)
(* A set of lints has some of config, sqf, stringtables; each maps lints to   *)
(* what is said about them as in Lint.tla; launch maps names to presets.      *)
EXTENDS Ver, FiniteSets

Or(r, f, default) == IF f \in DOMAIN r THEN r[f] ELSE default
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : ~LessS(y, x) IN <<a>> \o Sorted(S \ {a})

----------------------------------------------------------------------------
(* Downloadable content by any of its names                                   *)
Dlcs == <<"contact", "gm", "vn", "csla", "ws", "spe", "rf", "ef">>
DlcNames == <<{"1021790", "contact"},
              {"1042220", "gm", "global mobilization", "global mobilization - cold war germany"},
              {"1227700", "vn", "sog", "prairie fire", "s.o.g. prairie fire"},
              {"1294440", "csla", "iron curtain", "csla iron curtain"},
              {"1681170", "ws", "western sahara"},
              {"1175380", "spe", "spearhead", "spearhead 1944"},
              {"2647760", "rf", "reaction forces"},
              {"2647830", "ef", "expeditionary forces"}>>
Creator == "creator dlc: "
RECURSIVE NoCreator(_)
NoCreator(s) == IF Starts(s, Creator) THEN NoCreator(Rest(s, Len(Creator))) ELSE s
DlcOf(s) == {i \in 1..8 : NoCreator(LowS(s)) \in DlcNames[i]}
IsDlc(s) == DlcOf(s) # {}
DlcNo(s) == CHOOSE i \in DlcOf(s) : TRUE

----------------------------------------------------------------------------
(* Launch presets. The walk along `extends`: what was gathered, where from.   *)
Lists == {"workshop", "presets", "optionals", "parameters", "dlc"}
Singles == {"mission", "executable", "binarize", "file_patching", "instances", "rapify"}
Gather(near, far) ==
  [f \in (DOMAIN near \cup DOMAIN far) \ (IF "extends" \in DOMAIN far THEN {} ELSE {"extends"}) |->
     IF f \in Lists THEN Or(far, f, <<>>) \o Or(near, f, <<>>)
     ELSE IF f = "extends" THEN far.extends
     ELSE IF f \in DOMAIN near THEN near[f] ELSE far[f]]
\* a state of the walk
Begin(presets, k) == [of |-> k, got |-> presets[k], seen |-> {k}, end |-> ""]
Step(presets, w) ==
  LET e == w.got.extends IN
  IF "extends" \notin DOMAIN w.got THEN [w EXCEPT !.end = "done"]
  ELSE IF e \in w.seen THEN [w EXCEPT !.end = "self"]
  ELSE IF e \notin DOMAIN presets THEN [w EXCEPT !.end = "missing"]
  ELSE [w EXCEPT !.got = Gather(@, presets[e]), !.seen = @ \cup {e}]
RECURSIVE Walk(_, _)
Walk(presets, w) == IF w.end # "" THEN w ELSE Walk(presets, Step(presets, w))
Walked(presets, k) == Walk(presets, Begin(presets, k))

Exe(name) == IF Ends(LowS(name), ".exe") THEN name ELSE name \o ".exe"
SortedDlc(names) == LET n == {DlcNo(x) : x \in names} IN
                    SelectSeq([i \in 1..8 |-> IF i \in n THEN Dlcs[i] ELSE ""], LAMBDA x : x # "")
\* what the code answers for a preset: lists by `list`, and defaults
Answer(p, list(_), dlc(_)) ==
  [workshop |-> list(Or(p, "workshop", <<>>)), presets |-> list(Or(p, "presets", <<>>)),
   optionals |-> list(Or(p, "optionals", <<>>)), parameters |-> list(Or(p, "parameters", <<>>)),
   dlc |-> dlc(Or(p, "dlc", <<>>)),
   executable |-> Exe(Or(p, "executable", "arma3_x64")), binarize |-> Or(p, "binarize", FALSE),
   file_patching |-> Or(p, "file_patching", TRUE), instances |-> Or(p, "instances", 1), rapify |-> Or(p, "rapify", TRUE),
   mission |-> Or(p, "mission", "")]
SortedList(s) == Sorted(Elems(s))
SortedDlcs(s) == SortedDlc(Elems(s))
Effective(presets, k) == Answer(Walked(presets, k).got, SortedList, SortedDlcs)

\* presets put over one another: one after the other, later ones win
RECURSIVE Over(_, _, _)
Over(presets, names, below) ==
  IF names = <<>> THEN below
  ELSE LET p == IF Head(names) \in DOMAIN presets THEN Walked(presets, Head(names)).got ELSE [dlc |-> <<>>]
           clean == [f \in DOMAIN p |-> IF f \in Lists \ {"dlc"} THEN SortedList(p[f]) ELSE IF f = "dlc" THEN SortedDlcs(p[f]) ELSE p[f]]
       IN Over(presets, Tail(names), Gather(clean, below))
Same(s) == s
Overlaid(presets, names) == Answer(Over(presets, names, [dlc |-> <<>>]), Same, Same)

----------------------------------------------------------------------------
(* The rest of the file                                                       *)
Slashed(s) == IF Starts(s, "/") THEN s ELSE "/" \o s
Always == {"/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"}
Include(list) == Sorted({Slashed(x) : x \in Elems(list)} \cup Always)
PDrive(s) == CASE LowS(s) = "disallow" -> "Disallow" [] LowS(s) = "ignore" -> "Ignore" [] LowS(s) = "require" -> "Require" [] OTHER -> "bad"

SeverityNames == {"Help", "Note", "Warning", "Error", "Bug"}
LintOk(w) == CASE w.form = "bool" -> TRUE [] w.form = "severity" -> w.value \in SeverityNames
               [] OTHER -> "severity" \in DOMAIN w => w.severity \in SeverityNames
LintSays(w) ==
  [enabled |-> IF w.form = "bool" THEN (IF w.value THEN "on" ELSE "off") ELSE IF w.form = "table" /\ "enabled" \in DOMAIN w THEN (IF w.enabled THEN "on" ELSE "off") ELSE "",
   severity |-> IF w.form = "severity" THEN w.value ELSE IF w.form = "table" /\ "severity" \in DOMAIN w THEN w.severity ELSE "",
   options |-> IF w.form = "table" THEN Elems(Or(w, "options", <<>>)) ELSE {}]
LintKinds == {"config", "sqf", "stringtables"}
LintTable(l, kind) == IF kind \in DOMAIN l THEN [n \in DOMAIN l[kind] |-> LintSays(l[kind][n])] ELSE [n \in {} |-> ""]
NoLints(l) == \A kind \in LintKinds : kind \in DOMAIN l => DOMAIN l[kind] = {}
LintsBad(l) == \E kind \in LintKinds \cap DOMAIN l : \E n \in DOMAIN l[kind] : ~LintOk(l[kind][n])
LaunchBad(l) == \E n \in DOMAIN l : \E x \in Elems(Or(l[n], "dlc", <<>>)) : ~IsDlc(x)

Is(x, what) == x.is = what      \* launchfile and lintsfile: [is |-> "none"|"headed"|"says", says]
Problem(e) == [err |-> e]
Nothing == [n \in {} |-> ""]

TomlBad(c) == LET p == c.project IN
  \/ LintsBad(Or(p, "lints", Nothing)) \/ LaunchBad(Or(p, "launch", Nothing))
  \/ PDrive(Or(p, "check_pdrive", "ignore")) = "bad" \/ PDrive(Or(p, "build_pdrive", "ignore")) = "bad"
  \/ Or(p, "signing", 3) \notin {2, 3}
InProject(c) == Or(c.project, "launch", Nothing)
Presets(c) == IF Is(c.launchfile, "says") THEN c.launchfile.says ELSE InProject(c)
LintsOf(c) == IF Is(c.lintsfile, "says") THEN c.lintsfile.says ELSE Or(c.project, "lints", Nothing)

\* every reason to refuse the project; it is loaded if there is none
Problems(c) ==
  IF TomlBad(c) THEN {Problem("toml")}
  ELSE (IF c.project.prefix = "" THEN {Problem("prefix")} ELSE {})
    \cup (IF Is(c.launchfile, "none") THEN {}
          ELSE IF DOMAIN InProject(c) # {} THEN {Problem("launch-conflict")}
          ELSE IF Is(c.launchfile, "headed") THEN {Problem("invalid")}
          ELSE IF LaunchBad(c.launchfile.says) THEN {Problem("toml")} ELSE {})
    \cup (IF Is(c.launchfile, "headed") \/ LaunchBad(Presets(c)) THEN {}
          ELSE UNION {LET w == Walked(Presets(c), k) IN
                      IF w.end = "self" THEN {[err |-> "self", of |-> <<k>>]}
                      ELSE IF w.end = "missing" THEN {[err |-> "missing", of |-> <<k, w.got.extends>>]} ELSE {} : k \in DOMAIN Presets(c)})
    \cup (LET e == ConfError(Or(c.project, "version", Nothing)) IN IF e = "" THEN {} ELSE {Problem(e)})
    \cup (IF Is(c.lintsfile, "none") THEN {}
          ELSE IF ~NoLints(Or(c.project, "lints", Nothing)) THEN {Problem("lints-conflict")}
          ELSE IF Is(c.lintsfile, "headed") THEN {Problem("invalid")}
          ELSE IF LintsBad(c.lintsfile.says) THEN {Problem("toml")} ELSE {})

\* and what it is when loaded
Loaded(c) ==
  LET p == c.project v == Or(p, "version", Nothing) l == Presets(c) IN
  [name |-> p.name, prefix |-> p.prefix, mainprefix |-> Or(p, "mainprefix", ""),
   path |-> PathOf(v), git_hash |-> HashLen(v),
   properties |-> Or(p, "properties", Nothing),
   include |-> Include(Or(p, "include", <<>>)), exclude |-> Or(p, "exclude", <<>>),
   lints |-> [kind \in LintKinds |-> LintTable(LintsOf(c), kind)],
   check_pdrive |-> PDrive(Or(p, "check_pdrive", "ignore")), dev_exclude |-> Or(p, "dev_exclude", <<>>),
   launch |-> [k \in DOMAIN l |-> Effective(l, k)],
   optional_mod_folders |-> Or(p, "optional_mod_folders", TRUE), build_pdrive |-> PDrive(Or(p, "build_pdrive", "ignore")),
   folder |-> Or(p, "folder", p.prefix), sign |-> Or(p, "sign", TRUE), archive |-> Or(p, "archive", TRUE),
   signing |-> IF Or(p, "signing", 3) = 2 THEN "V2" ELSE "V3", authority |-> Or(p, "authority", "")]

----------------------------------------------------------------------------
(* does an answer of the code agree?                                          *)
SameTable(e, o) == /\ DOMAIN o = DOMAIN e /\ \A k \in DOMAIN e : e[k] = o[k]
SameLint(e, o) == /\ Or(o, "severity", "") = e.severity
                  /\ ("enabled" \in DOMAIN o) = (e.enabled # "") /\ ("enabled" \in DOMAIN o => o.enabled = (e.enabled = "on"))
                  /\ Elems(o.options) = e.options
SamePreset(e, o) == DOMAIN o \subseteq DOMAIN e /\ \A f \in DOMAIN e : e[f] = IF f = "mission" THEN Or(o, f, "") ELSE o[f]
SameProject(e, o) ==
  /\ DOMAIN o \subseteq DOMAIN e
  /\ \A f \in DOMAIN e \ {"lints", "launch", "properties"} : e[f] = IF f \in {"mainprefix", "authority"} THEN Or(o, f, "") ELSE o[f]
  /\ SameTable(e.properties, o.properties)
  /\ \A k \in LintKinds : /\ DOMAIN o.lints[k] = DOMAIN e.lints[k]
                          /\ \A n \in DOMAIN e.lints[k] : SameLint(e.lints[k][n], o.lints[k][n])
  /\ DOMAIN o.launch = DOMAIN e.launch /\ \A n \in DOMAIN e.launch : SamePreset(e.launch[n], o.launch[n])
SameProblem(e, o) == o.err = e.err /\ ("of" \in DOMAIN e => o.of = e.of)
SameLoad(c, o) ==
  LET p == Problems(c) IN
  IF p # {} THEN "err" \in DOMAIN o /\ \E e \in p : SameProblem(e, o)
  ELSE /\ "project" \in DOMAIN o /\ SameProject(Loaded(c), o.project)
       /\ "overlay" \in DOMAIN c => SamePreset(Overlaid(Presets(c), c.overlay), o.overlay)
=============================================================================
