------------------------------- MODULE MCProj -------------------------------
(* Projects: every few options of a pool; and every placement of lints and    *)
(* launch presets in the project file and in their own files.                 *)
EXTENDS Proj, TLC, Json
CONSTANTS Part, MaxOpts
Base == [name |-> "Abe", prefix |-> "abe"]
None0 == [is |-> "none"]
Says(x) == [is |-> "says", says |-> x]
Bool(v) == [form |-> "bool", value |-> v]
Sev(v) == [form |-> "severity", value |-> v]
L(kind, w) == (kind :> ("some" :> w))
Table == [form |-> "table", severity |-> "Help", options |-> <<<<"k", "1">>>>]

Options == <<
  <<"prefix", "">>, <<"mainprefix", "z">>, <<"version", [path |-> "a\\b.hpp"]>>, <<"version", [major |-> "1", minor |-> "2", patch |-> "3", build |-> "4", git_hash |-> "0"]>>,
  <<"version", [build |-> "4"]>>, <<"version", [path |-> "a", major |-> "1", minor |-> "0", patch |-> "0"]>>, <<"version", [major |-> "1", patch |-> "1"]>>,
  <<"properties", [a |-> "b", c |-> "d"]>>, <<"include", <<"mod.cpp", "/x/*", "a.txt">>>>, <<"include", <<>>>>, <<"exclude", <<"*.psd", "a">>>>,
  <<"lints", L("config", Bool(FALSE))>>, <<"lints", L("sqf", Sev("Warning")) @@ L("stringtables", Table)>>, <<"lints", L("config", Sev("Loud"))>>,
  <<"check_pdrive", "Require">>, <<"check_pdrive", "never">>, <<"build_pdrive", "disallow">>, <<"dev_exclude", <<"b", "a">>>>,
  <<"launch", [default |-> [workshop |-> <<"2", "1">>]]>>, <<"launch", [default |-> [dlc |-> <<"nothing">>]]>>, <<"launch", [a |-> [extends |-> "b"], b |-> [extends |-> "a"]]>>,
  <<"optional_mod_folders", FALSE>>, <<"folder", "@out">>, <<"sign", FALSE>>, <<"archive", FALSE>>, <<"signing", 2>>, <<"signing", 4>>, <<"authority", "me">> >>

LaunchIn == {Nothing, [default |-> [rapify |-> FALSE]], [a |-> [extends |-> "gone"]], [a |-> [instances |-> 2]]}
LaunchFiles == {None0, [is |-> "headed", says |-> [a |-> [instances |-> 3]]], Says(Nothing), Says([a |-> [instances |-> 3], b |-> [extends |-> "a", dlc |-> <<"spe">>]]), Says([b |-> [dlc |-> <<"x">>]]), Says([a |-> [extends |-> "a"]])}
LintsIn == {Nothing, [config |-> Nothing], L("config", Bool(TRUE)), L("sqf", Bool(TRUE)), L("stringtables", Bool(TRUE)), L("stringtables", Sev("x"))}
LintFiles == {None0, [is |-> "headed", says |-> L("config", Bool(FALSE))], Says(Nothing), Says(L("config", Bool(FALSE))), Says(L("stringtables", Table)), Says(L("sqf", Sev("y")))}
VARIABLES c, last, n
Case0(p, lf, nf) == [project |-> p, launchfile |-> lf, lintsfile |-> nf]
Init == c = Case0(Base, None0, None0) /\ last = 0 /\ n = 0
Set(o, v) == IF o \in {"prefix"} THEN [c.project EXCEPT !.prefix = v] ELSE (o :> v) @@ c.project
Option == /\ Part = "options" /\ n < MaxOpts
          /\ \E i \in last + 1..Len(Options) :
               /\ (Options[i][1] = "prefix" \/ Options[i][1] \notin DOMAIN c.project)
               /\ last' = i /\ n' = n + 1 /\ c' = [c EXCEPT !.project = Set(Options[i][1], Options[i][2])]
Place == /\ Part = "places" /\ n = 0 /\ n' = 1 /\ UNCHANGED last
         /\ \E a \in LaunchIn, b \in LaunchFiles, x \in LintsIn, y \in LintFiles, p \in {"", "abe"}, v \in {Nothing, [build |-> "1"], [path |-> "v.hpp"]} :
              c' = Case0([Base EXCEPT !.prefix = p] @@ (IF a = Nothing THEN Nothing ELSE [launch |-> a]) @@ [lints |-> x] @@ [version |-> v], b, y)
Next == Option \/ Place

\* neither of two places is ever passed over
Given(l) == IF Is(l, "none") THEN {} ELSE DOMAIN l.says
NeverBoth ==
  /\ ~Is(c.launchfile, "none") /\ DOMAIN InProject(c) # {} => Problems(c) # {}
  /\ ~Is(c.lintsfile, "none") /\ (\E k \in LintKinds : k \in DOMAIN Or(c.project, "lints", Nothing) /\ DOMAIN c.project.lints[k] # {}) => Problems(c) # {}
\* what is loaded is all that was written: every preset and every lint of either place
AllThere == Problems(c) = {} =>
  LET l == Loaded(c) IN
  /\ DOMAIN l.launch = DOMAIN InProject(c) \cup Given(c.launchfile)
  /\ \A k \in LintKinds : DOMAIN l.lints[k] = DOMAIN Or(Or(c.project, "lints", Nothing), k, Nothing) \cup (IF Is(c.lintsfile, "says") THEN DOMAIN Or(c.lintsfile.says, k, Nothing) ELSE {})
\* an option that is set counts, and no other changes
Plain == {"mainprefix", "exclude", "dev_exclude", "optional_mod_folders", "folder", "sign", "archive", "authority", "properties"}
Counts == Problems(c) = {} =>
  LET l == Loaded(c) d == Loaded(Case0(Base, None0, None0)) IN
  \A f \in Plain : l[f] = IF f \in DOMAIN c.project THEN c.project[f] ELSE d[f]
Emitted == PrintT(ToJson(c))
=============================================================================
