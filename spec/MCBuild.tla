-------------------------------- MODULE MCBuild --------------------------------
(* Every short history of commands and edits of a small project.              *)
(* The parts - the project, and what may be done - are read from a file, with *)
(* the texts the files have; what follows from them is told by Build.         *)
EXTENDS Build, Json, IOUtils
CONSTANTS Depth
Parts == JsonDeserialize(IOEnv.PARTS)
VARIABLES S, did, last     \* last: what came before the last run, the run, its exit code
vars == <<S, did, last>>
Ops == Parts.ops
Init == S = Start(Parts.src) /\ did = <<>> /\ last = [is |-> "none"]
Useful(o) == IF o.op = "put" THEN (o.path \in DOMAIN S.src => S.src[o.path] # o.file) ELSE o.op = "del" => o.path \in DOMAIN S.src
Next ==
  /\ Len(did) < Depth
  /\ \E i \in 1..Len(Ops) :
       /\ Useful(Ops[i])
       /\ Ops[i].first => did = <<>>
       /\ Len(did) = Depth - 1 => Ops[i].op = "run"     \* an edit at the end shows nothing
       /\ did' = Append(did, i)
       /\ IF Ops[i].op = "run" THEN LET n == Run(S, Ops[i].c) IN S' = n.S /\ last' = [is |-> "run", before |-> S, c |-> Ops[i].c, code |-> n.code]
          ELSE S' = Edit(S, Ops[i]) /\ last' = [is |-> "edit"]
Spec == Init /\ [][Next]_vars

Ran == last.is = "run"
Good == Ran /\ last.code = 0
P == S.src[ProjectFile]
Own == S.out[last.c.cmd]
Kinds(f, k) == {p \in DOMAIN f : f[p].is = k}
Hooked == \E p \in DOMAIN S.src : S.src[p].k = "hook"

\* what a command leaves does not depend on what was done before
Fresh == (Good /\ last.c.just = <<>>) => Own = Run(Start(last.before.src), last.c).S.out[last.c.cmd]
\* it touches no other folder, and without hooks not the project
Apart == Ran => /\ \A f \in DOMAIN last.before.out \ {last.c.cmd} : S.out[f] = last.before.out[f]
                /\ DOMAIN S.out \subseteq DOMAIN last.before.out \cup {last.c.cmd}
                /\ (~Hooked => S.src = last.before.src)
                /\ (last.c.cmd # "release" => S.rel = last.before.rel)
\* a run that fails to compile leaves no archive of before
NoStale == (Ran /\ last.code # 0 /\ last.c.just = <<>> /\ ~Hooked /\ S # last.before) => Kinds(Own, "pbo") = {}
\* a check makes nothing
Checked == (Ran /\ last.c.cmd = "check" /\ ~Hooked /\ "check" \in DOMAIN S.out) => DOMAIN Own = {}
\* every archive of a signed release has one signature, by a key that lies with it
Signed == (Good /\ Signing(P, last.c)) =>
  /\ \A p \in Kinds(Own, "pbo") : Cardinality({q \in Kinds(Own, "sign") : Own[q].of = p}) = 1
  /\ \A q \in Kinds(Own, "sign") : Own[q].of \in Kinds(Own, "pbo") /\ \E k \in Kinds(Own, "key") : Own[k].authority = Own[q].authority
Unsigned == (Good /\ ~Signing(P, last.c)) => Kinds(Own, "sign") \cup Kinds(Own, "key") = {}
\* the release is what the folder held
Zipped == (Good /\ Archiving(P, last.c) /\ ~Hooked) =>
  /\ S.rel[P.prefix \o "-latest.zip"] = S.rel[P.prefix \o "-" \o VersionIn(S.src, P) \o ".zip"]
  /\ Cardinality(DOMAIN S.rel[P.prefix \o "-latest.zip"].files) = Cardinality(DOMAIN Own)
  /\ \A z \in DOMAIN last.before.rel : z \in DOMAIN S.rel
\* with --just, what was there stays
Kept == (Ran /\ last.c.just # <<>> /\ last.c.cmd \in DOMAIN last.before.out) => DOMAIN last.before.out[last.c.cmd] \subseteq DOMAIN Own
\* one archive for every addon that was asked for
OneEach == (Good /\ last.c.just = <<>> /\ last.c.cmd # "check") => Cardinality(Kinds(Own, "pbo")) = Cardinality(Chosen(last.before.src, last.before.src[ProjectFile], last.c))
\* a faulty file is told, and only then
Tells == (Ran /\ ~Hooked /\ (\E p \in DOMAIN S.src : S.src[p].k \in {"badsqf", "badproj"}) /\ last.c.just = <<>>) => last.code = 1

Shown == Len(did) = Depth => PrintT(ToJson([did |-> did]))
=============================================================================
