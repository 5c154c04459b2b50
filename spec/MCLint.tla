------------------------------- MODULE MCLint -------------------------------
(* Every history of additions from a pool of batches, under every override of *)
(* a pool; the manager's answers are held against what is said about them.    *)
EXTENDS Lint, TLC, Json
CONSTANTS MaxOps, Overs

L(i, s, e, m, r) == [ident |-> i, sev |-> s, enabled |-> e, min |-> m, options |-> <<<<"k", "1">>, <<"d", "\"x\"">>>>, runners |-> r, twice |-> FALSE]
A1 == L("a", "Warning", TRUE, "Help", <<"A">>)
A2 == L("a", "Error", TRUE, "default", <<"B", "A">>)
B1 == L("b", "Error", TRUE, "Warning", <<"A", "B">>)
B2 == L("b", "Warning", FALSE, "default", <<"A", "A">>)
C1 == L("c", "Error", TRUE, "default", <<"B">>)
Batches == {<<A1>>, <<A2>>, <<B1>>, <<B2>>, <<A1, B1>>, <<B1, A2>>, <<B2, C1>>, <<A1, A2>>}
Ops == {[op |-> IF Len(b) = 1 THEN "push" ELSE "extend", lints |-> b] : b \in Batches}
       \cup {[op |-> "group", lints |-> b, on |-> o, id |-> "g"] : b \in {<<A1>>, <<B2>>, <<A1, B1>>, <<C1, B2>>}, o \in {"A", "B"}}
Bool(v) == [form |-> "bool", value |-> v]
Sev(v) == [form |-> "severity", value |-> v]
SaidA == {Bool(TRUE), Bool(FALSE), Sev("Help"), Sev("Warning"), Sev("Error"),
          [form |-> "table", enabled |-> FALSE, severity |-> "Error"],
          [form |-> "table", options |-> <<<<"k", "2">>, <<"n", "true">>>>]}
OverPool == IF Overs = "one" THEN {<<>>} \cup {<<<<"a", s>>>> : s \in SaidA} \cup {<<<<"b", s>>>> : s \in SaidA}
            ELSE {<<<<"a", s>>, <<"b", t>>>> : s \in SaidA, t \in SaidA}

VARIABLES phase, over, st, hist, answers
vars == <<phase, over, st, hist, answers>>
Init == over = <<>> /\ st = Empty /\ hist = <<>> /\ answers = <<>> /\ phase = "start"
Choose == phase = "start" /\ over' \in OverPool /\ phase' = "adding" /\ UNCHANGED <<st, hist, answers>>
Do == /\ phase = "adding" /\ Len(hist) < MaxOps
      /\ \E op \in Ops : /\ hist' = Append(hist, op)
                         /\ st' = Add(over, st, op)
                         /\ answers' = Append(answers, Accepted(over, st, op))
      /\ UNCHANGED <<over, phase>>
Next == Choose \/ Do

Idents(ls) == [i \in 1..Len(ls) |-> ls[i].ident]
\* no two lints of one name
Unique == \A i, j \in 1..Len(st.lints) : i # j => st.lints[i].ident # st.lints[j].ident
\* the state is what the accepted additions brought, in order
RECURSIVE Brought(_, _)
Brought(i, g) == IF i > Len(hist) THEN <<>>
                 ELSE (IF answers[i] /\ (IsGroup(hist[i]) = g) THEN (IF g THEN <<Idents(hist[i].lints)>> ELSE Idents(hist[i].lints)) ELSE <<>>) \o Brought(i + 1, g)
AsAdded == /\ Idents(st.lints) = Brought(1, FALSE)
           /\ [i \in 1..Len(st.groups) |-> Idents(st.groups[i].lints)] = Brought(1, TRUE)
\* nothing runs below its minimum or though switched off, and what may not be switched off runs
All(on) == Calls(over, st, on)
Lint(id) == st.lints[CHOOSE i \in 1..Len(st.lints) : st.lints[i].ident = id]
Held == \A on \in {"A", "B"} :
  /\ \A i \in 1..Len(All(on)) :
        LET c == All(on)[i] l == Lint(c.lint) IN
        /\ l.runners[c.runner] = on
        /\ Rank(c.settings.sev) >= Rank(Min(l))
        /\ \A j \in 1..Len(over) : over[j][1] = c.lint =>
             /\ over[j][2] # Bool(FALSE)
             /\ over[j][2].form = "severity" => c.settings.sev = over[j][2].value
             /\ over[j][2].form = "bool" => c.settings.sev = l.sev
        /\ ~IsSaid(over, c.lint) => c.settings.sev = l.sev /\ l.enabled
  /\ \A i \in 1..Len(st.lints) : Min(st.lints[i]) = "Error" /\ st.lints[i].enabled =>
        Cardinality({j \in 1..Len(All(on)) : All(on)[j].lint = st.lints[i].ident}) = Cardinality({n \in 1..Len(st.lints[i].runners) : st.lints[i].runners[n] = on})
  \* in the order they were added
  /\ \A i, j \in 1..Len(All(on)) : i < j =>
        LET at(c) == CHOOSE k \in 1..Len(st.lints) : st.lints[k].ident = c.lint IN
        at(All(on)[i]) < at(All(on)[j]) \/ (All(on)[i].lint = All(on)[j].lint /\ All(on)[i].runner < All(on)[j].runner)
\* a refused addition changes nothing
Unchanged == [][hist' # hist /\ ~answers'[Len(answers')] => st' = st]_vars

Complete == Len(hist) = MaxOps
Emitted == Complete => PrintT(ToJson([over |-> over, hist |-> hist, answers |-> answers,
                          a |-> Calls(over, st, "A") \o GroupCalls(over, st, "A"), b |-> Calls(over, st, "B") \o GroupCalls(over, st, "B")]))
=============================================================================
