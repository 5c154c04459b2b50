----------------------------- MODULE TraceLint -----------------------------
(* Recorded histories of lint managers, and reports of the real config lints  *)
(* under a project's settings, judged.                                        *)
EXTENDS Lint, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O \/ "project_err" \in DOMAIN O

\* a history: state by state
RECURSIVE Follows(_, _)
Follows(st, i) ==
  IF i > Len(Case.ops) THEN TRUE
  ELSE LET op == Case.ops[i] o == O.out[i] IN
    IF op.op = "run" THEN "told" \in DOMAIN o /\ SameRun(Case.over, st, op.on, o.told) /\ Follows(st, i + 1)
    ELSE LET r == Refusals(Case.over, st, op.lints, IsGroup(op)) IN
         /\ IF r = <<>> THEN "ok" \in DOMAIN o
            ELSE "refused" \in DOMAIN o /\ o.refused = r /\ o.shown
         /\ Follows(Add(Case.over, st, op), i + 1)
ManagerOk == Len(O.out) = Len(Case.ops) /\ Follows(Empty, 1)

\* the real lints of configs: ident, code, default severity, minimum
Real == <<<<"invalid_value", "L-C01", "Error", "Error">>, <<"duplicate_property", "L-C02", "Error", "Error">>,
          <<"duplicate_classes", "L-C03", "Error", "Error">>, <<"external_missing", "L-C04", "Error", "Error">>,
          <<"external_parent_case", "L-C05", "Warning", "Help">>, <<"unexpected_array", "L-C06", "Error", "Error">>,
          <<"expected_array", "L-C07", "Error", "Error">>, <<"missing_semicolon", "L-C08", "Error", "Error">>,
          <<"magwell_missing_magazine", "L-C09", "Error", "Warning">>, <<"class_missing_braces", "L-C10", "Error", "Error">>>>
RealLints == [i \in 1..Len(Real) |-> [ident |-> Real[i][1], sev |-> Real[i][3], min |-> Real[i][4], enabled |-> TRUE, options |-> <<>>, runners |-> <<>>, twice |-> FALSE]]
OfCode(id) == {i \in 1..Len(Real) : Real[i][2] = id}
Lower(s) == CASE s = "Warning" -> "warning" [] s = "Error" -> "error" [] s = "Help" -> "help" [] OTHER -> "other"
\* the reports left over by the settings, each at its severity
Left(codes) == SelectSeq(codes, LAMBDA r : OfCode(r.id) = {} \/ Resolved(Case.over, RealLints[CHOOSE i \in OfCode(r.id) : TRUE]).enabled)
SevOf(id) == Lower(Resolved(Case.over, RealLints[CHOOSE i \in OfCode(id) : TRUE]).sev)
IsOf(r, sev) == r.sev = sev
\* known: reports of external_parent_case are errors whatever was set
ConfigOk(deviant) ==
  LET r == Refusals(Case.over, Empty, RealLints, FALSE) w == O.with p == O.plain IN
  IF "codes" \notin DOMAIN p THEN w = p   \* not a config at all
  ELSE
     IF r # <<>> THEN "refused" \in DOMAIN w /\ Len(w.refused) = Len(r)
         /\ \A id \in {r[i] : i \in 1..Len(r)} : Cardinality({i \in 1..Len(r) : r[i] = id}) = Cardinality({i \in 1..Len(r) : w.refused[i] = id})
     ELSE LET e == Left(p.codes) IN
       /\ "codes" \in DOMAIN w /\ Len(w.codes) = Len(e)
       /\ \A i \in 1..Len(e) :
            LET o == w.codes[i] IN
            /\ o.id = e[i].id /\ o.at = e[i].at /\ o.shown = e[i].shown
            /\ OfCode(o.id) # {} => o.sev = SevOf(o.id) \/ (deviant /\ o.id = "L-C05" /\ o.sev = "error")
       /\ w.errors = Cardinality({i \in 1..Len(w.codes) : IsOf(w.codes[i], "error")})
       /\ w.warnings = Cardinality({i \in 1..Len(w.codes) : IsOf(w.codes[i], "warning")})

Good == ~Broken /\ (IF Case.kind = "manager" THEN ManagerOk ELSE ConfigOk(FALSE))
Deviant == ~Broken /\ Case.kind = "config" /\ ConfigOk(TRUE)
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson(IF Good THEN [i |-> c, v |-> "ok"] ELSE IF Deviant THEN [i |-> c, v |-> "bad", key |-> "external_parent_case-is-an-error"] ELSE [i |-> c, v |-> "bad"]))
=============================================================================
