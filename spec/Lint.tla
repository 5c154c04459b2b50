-------------------------------- MODULE Lint --------------------------------
(* The lint manager. A lint is a record                                       *)
(*   [ident, sev, enabled, min, options, runners, twice]                      *)
(* with min = "default" when the lint names no minimum of its own; options is *)
(* a sequence of <<key, value>> with distinct keys. What a project says about *)
(* a lint is one of                                                           *)
(*   [form |-> "bool", value]  [form |-> "severity", value]                   *)
(*   [form |-> "table", ...]   with any of enabled, severity, options         *)
(* and `over` is the sequence of <<ident, what is said>>, idents distinct.    *)
EXTENDS Integers, Sequences, FiniteSets

Severities == <<"Help", "Note", "Warning", "Error", "Bug">>
Rank(s) == CHOOSE i \in 1..5 : Severities[i] = s
Min(l) == IF l.min = "default" THEN l.sev ELSE l.min

Said(over, ident) == {i \in 1..Len(over) : over[i][1] = ident}
IsSaid(over, ident) == Said(over, ident) # {}
What(over, ident) == over[CHOOSE i \in Said(over, ident) : TRUE][2]

\* options: those said take the place of defaults with the same key
KeysOf(o) == {o[i][1] : i \in 1..Len(o)}
ValueOf(o, k) == o[CHOOSE i \in 1..Len(o) : o[i][1] = k][2]
Merge(new, old) == [k \in KeysOf(new) \cup KeysOf(old) |-> IF k \in KeysOf(new) THEN ValueOf(new, k) ELSE ValueOf(old, k)]

Resolved(over, l) ==
  LET said == IsSaid(over, l.ident)
      w == IF said THEN What(over, l.ident) ELSE [form |-> "none"]
      has(f) == f \in DOMAIN w
  IN [enabled |-> IF w.form = "bool" THEN w.value ELSE IF w.form = "table" /\ has("enabled") THEN w.enabled ELSE l.enabled,
      sev |-> IF w.form = "severity" THEN w.value ELSE IF w.form = "table" /\ has("severity") THEN w.severity ELSE l.sev,
      options |-> Merge(IF w.form = "table" /\ has("options") THEN w.options ELSE <<>>, l.options)]

(* the state: what was added so far *)
Empty == [lints |-> <<>>, groups |-> <<>>]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

\* the reasons to refuse the i-th lint of a batch, as idents
Reasons(over, st, batch, i, group) ==
  LET l == batch[i]
      r == Resolved(over, l)
      known == {st.lints[j].ident : j \in 1..Len(st.lints)} \cup {batch[j].ident : j \in 1..i-1}
      said == IsSaid(over, l.ident)
      one(c) == IF c THEN <<l.ident>> ELSE <<>>
  IN one(l.ident \in known) \o one(said /\ Rank(r.sev) < Rank(Min(l))) \o one(said /\ ~r.enabled /\ Min(l) = "Error")
Refusals(over, st, batch, group) == Flatten([i \in 1..Len(batch) |-> Reasons(over, st, batch, i, group)])

IsGroup(op) == op.op = "group"
Accepted(over, st, op) == Refusals(over, st, op.lints, IsGroup(op)) = <<>>
Add(over, st, op) ==
  IF ~Accepted(over, st, op) THEN st
  ELSE IF IsGroup(op) THEN [st EXCEPT !.groups = Append(@, [lints |-> op.lints, on |-> op.on, id |-> op.id])]
  ELSE [st EXCEPT !.lints = @ \o op.lints]

\* what a run on a target of one type calls: <<lint, runner, its settings>>
Calls(over, st, on) ==
  Flatten([i \in 1..Len(st.lints) |->
    LET l == st.lints[i] r == Resolved(over, l)
        of(n) == IF l.runners[n] # on THEN <<>>
                 ELSE <<[lint |-> l.ident, runner |-> n, settings |-> r]>> \o (IF l.twice THEN <<[lint |-> l.ident, runner |-> n, settings |-> r, again |-> TRUE]>> ELSE <<>>)
    IN IF r.enabled THEN Flatten([n \in 1..Len(l.runners) |-> of(n)]) ELSE <<>>])
\* and which groups: id and the settings of its enabled lints (of two lints with
\* the same ident in a group the later one counts)
GroupCalls(over, st, on) ==
  Flatten([i \in 1..Len(st.groups) |->
    LET g == st.groups[i]
        ids == {g.lints[j].ident : j \in {j \in 1..Len(g.lints) : Resolved(over, g.lints[j]).enabled}}
        pick(k) == CHOOSE j \in 1..Len(g.lints) : /\ g.lints[j].ident = k /\ Resolved(over, g.lints[j]).enabled
                        /\ \A m \in j+1..Len(g.lints) : ~(g.lints[m].ident = k /\ Resolved(over, g.lints[m]).enabled)
    IN IF g.on # on \/ ids = {} THEN <<>>
       ELSE <<[group |-> g.id, settings |-> [k \in ids |-> Resolved(over, g.lints[pick(k)])]]>>])

(* does an answer of the code agree? *)
SameSettings(r, o) ==
  /\ o.sev = r.sev /\ o.enabled = r.enabled
  /\ {o.options[i] : i \in 1..Len(o.options)} = {<<k, r.options[k]>> : k \in DOMAIN r.options}
SameCall(e, o) ==
  IF "group" \in DOMAIN e THEN
    /\ "group" \in DOMAIN o /\ o.group = e.group
    /\ {o.configs[i].lint : i \in 1..Len(o.configs)} = DOMAIN e.settings
    /\ Len(o.configs) = Cardinality(DOMAIN e.settings)
    /\ \A i \in 1..Len(o.configs) : SameSettings(e.settings[o.configs[i].lint], o.configs[i])
  ELSE /\ "lint" \in DOMAIN o /\ o.lint = e.lint /\ o.runner = e.runner
       /\ ("again" \in DOMAIN o) = ("again" \in DOMAIN e)
       /\ SameSettings(e.settings, o)
SameRun(over, st, on, told) ==
  LET e == Calls(over, st, on) \o GroupCalls(over, st, on) IN
  /\ Len(told) = Len(e) /\ \A i \in 1..Len(e) : SameCall(e[i], told[i])
=============================================================================
