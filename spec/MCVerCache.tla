----------------------------- MODULE MCVerCache -----------------------------
(* Every history of edits, requests and invalidations under every             *)
(* configuration of a pool.                                                   *)
EXTENDS Ver, FiniteSets, TLC, Json
CONSTANT MaxOps
D == "addons/main/script_version.hpp"
F(a) == "#define MAJOR " \o a \o "\n#define MINOR 2\n#define PATCHLVL 3 // fix\n#define BUILD 4\n"
G(a) == "// MAJOR\n#define MAJOR " \o a \o "\r\n  #define MINOR 2 \n#define PATCH 3"
Contents == {F("1"), G("2"), "#define MAJOR 1\n#define MINOR x\n#define PATCH 3\n", "nothing"}
Z == [git_hash |-> "0"]
Commit == "bfe667e5a1504d4ec775506fa4357e4be79d40db"   \* the commit the executor makes
ConfPool == { Z, [path |-> "other.hpp"], [path |-> "other.hpp"] @@ Z, [path |-> "addons\\main\\script_version.hpp", git_hash |-> "3"], [major |-> "5", minor |-> "6", patch |-> "7"],
           [major |-> "5", minor |-> "6", patch |-> "7", git_hash |-> "0"], [major |-> "5", minor |-> "6", patch |-> "7", build |-> "8", git_hash |-> "41"],
           [major |-> "5", minor |-> "6"], [major |-> "5", patch |-> "6"], [minor |-> "6", patch |-> "6"], [build |-> "1"], [patch |-> "1", path |-> "other.hpp"],
           [major |-> "5", minor |-> "6", patch |-> "7", path |-> "other.hpp"] }
Ops == {[op |-> "get"], [op |-> "invalidate"]} \cup {[op |-> "edit", path |-> p, text |-> t] : p \in {D, "other.hpp"}, t \in Contents}
       \cup {[op |-> "remove", path |-> D]}
VARIABLES conf, head, files, cache, hist, answers, phase
vars == <<conf, head, files, cache, hist, answers, phase>>
NoFiles == [p \in {} |-> ""]
Init == conf = Z /\ head = "" /\ files = NoFiles /\ cache = <<>> /\ hist = <<>> /\ answers = <<>> /\ phase = "start"
Choose == /\ phase = "start" /\ conf' \in ConfPool /\ head' \in (IF HashLen(conf') = 0 THEN {""} ELSE {"", Commit}) /\ files' \in {NoFiles, [p \in {D} |-> F("1")]}
          /\ phase' = IF ConfError(conf') = "" THEN "run" ELSE "refused"
          /\ UNCHANGED <<cache, answers>> /\ hist' = IF files' = NoFiles THEN <<>> ELSE <<[op |-> "edit", path |-> D, text |-> F("1")]>>
Room == phase = "run" /\ Len(hist) < MaxOps
Edit == Room /\ \E o \in Ops :
          /\ o.op \in {"edit", "remove"}
          /\ files' = [p \in (DOMAIN files \cup {o.path}) \ (IF o.op = "remove" THEN {o.path} ELSE {}) |-> IF p = o.path THEN o.text ELSE files[p]]
          /\ hist' = Append(hist, o) /\ UNCHANGED <<conf, head, cache, answers, phase>>
Request == Room /\ LET r == Get(conf, files, head, cache) IN
             /\ cache' = Filled(r, cache) /\ answers' = Append(answers, r)
             /\ hist' = Append(hist, [op |-> "get"]) /\ UNCHANGED <<conf, head, files, phase>>
Invalidate == Room /\ cache' = <<>> /\ hist' = Append(hist, [op |-> "invalidate"]) /\ UNCHANGED <<conf, head, files, answers, phase>>
Next == Choose \/ Edit \/ Request \/ Invalidate
\* between invalidations there is one version, whatever happens to the files
Gets == {i \in 1..Len(hist) : hist[i].op = "get"}
RankOf(i) == Cardinality({j \in Gets : j <= i})
Answer(i) == answers[RankOf(i)]
Stable == \A i, j \in Gets : i < j /\ ~IsErr(Answer(i)) /\ (\A k \in i..j : hist[k].op # "invalidate") => Answer(j) = Answer(i)
\* the first answer after an invalidation is that of the files as they are then
Fresh == \A j \in Gets : (\A i \in Gets : i < j => \E k \in i..j : hist[k].op = "invalidate") /\ j = Len(hist) => Answer(j) = Now(conf, files, head)
Emitted == /\ phase = "run" /\ Len(hist) = MaxOps /\ hist[MaxOps].op = "get" => PrintT(ToJson([conf |-> conf, head |-> head, hist |-> hist, exp |-> [i \in 1..Len(answers) |-> IF IsErr(answers[i]) THEN answers[i] ELSE [print |-> Printed(answers[i])]]]))
           /\ phase = "refused" => PrintT(ToJson([conf |-> conf, head |-> head, hist |-> <<>>, refused |-> ConfError(conf)]))
=============================================================================
