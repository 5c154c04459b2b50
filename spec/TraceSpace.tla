------------------------------ MODULE TraceSpace ------------------------------
(* Recorded answers of workspaces and addon scans, judged operation by        *)
(* operation, and the directory left behind.                                  *)
EXTENDS Missing, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O
Elems(q) == {q[i] : i \in 1..Len(q)}
ErrIs(o, e) == "err" \in DOMAIN o /\ o.err = e
Fn(f) == IF DOMAIN f = {} THEN EmptyFn ELSE f

Space0 == [disk |-> Fn(Case.disk), dirs |-> Elems(Case.dirs), layers |-> Case.layers, mem |-> [i \in 1..Len(Case.layers) |-> EmptyFn]]
Ptr == IF Case.discover THEN Pointers(Space0) ELSE EmptyFn

\* one answer
SameAddon(a, o) == /\ \A f \in DOMAIN a \ {"config"} : o[f] = a[f]
                   /\ ("config" \in DOMAIN o) = ("config" \in DOMAIN a)
                   /\ "config" \in DOMAIN a => \A f \in DOMAIN a.config : (f = "properties" /\ DOMAIN Fn(a.config[f]) = {} /\ DOMAIN Fn(o.config[f]) = {}) \/ o.config[f] = a.config[f]
ScanOk(sp, o) ==
  LET E == ScanErrs(sp, Case.says) S == Scanned(sp, Case.says) IN
  IF E # {} THEN "err" \in DOMAIN o /\ \E e \in E : e.err = o.err /\ ("of" \in DOMAIN e => "of" \in DOMAIN o /\ o.of = e.of)
  ELSE "scan" \in DOMAIN o /\ Len(o.scan) = Cardinality(S) /\ \A a \in S : \E i \in 1..Len(o.scan) : SameAddon(a, o.scan[i])
MissingOk(sp, op, o) ==
  LET ptr == Ptr
      all == UNION {Asked(op.models[i]) : i \in 1..Len(op.models)}
      F == {p \in all : There(sp, ptr, p)}
  IN "missing" \in DOMAIN o /\ Len(o.missing) = Len(op.models) /\ \A i \in 1..Len(op.models) : Reported(F, op.models[i], o.missing[i])
\* (what is listed below a file is left open)
Answered(sp, op, o) == IF op.op = "scan" THEN ScanOk(sp, o) ELSE IF op.op = "missing" THEN MissingOk(sp, op, o) ELSE IF op.op \in {"list", "walk"} /\ IsFile(sp, op.path) THEN TRUE ELSE o = Expect(sp, Ptr, op)
RECURSIVE Follows(_, _)
Follows(i, sp) == IF i > Len(Case.ops) THEN Fn(O.disk) = sp.disk
                  ELSE Answered(sp, Case.ops[i], O.out[i]) /\ Follows(i + 1, After(sp, Case.ops[i]))

\* names that differ only in case in one directory leave open which is meant
Wrote == UNION {Ups(Below(Space0, Top(Space0)) \o Case.ops[i].path) : i \in {j \in 1..Len(Case.ops) : Case.ops[j].op = "write"}}
Clear == LET E == OnDiskDirs(Space0) \cup Wrote IN \A p, q \in E : Parent(p) = Parent(q) /\ LowEq(p, q) => p = q
NeedsClear == \E i \in 1..Len(Case.ops) : Case.ops[i].op \in {"locate", "missing"}
Unclean == \E i \in 1..Len(Case.ops) : Case.ops[i].op = "missing" /\ \E j \in 1..Len(Case.ops[i].models) : ~Clean(Case.ops[i].models[j])
Good == /\ ~Broken
        /\ LET E == IF Case.discover THEN DiscoveryErrs(Space0) ELSE {} IN
           IF E # {} THEN "err" \in DOMAIN O /\ O.err \in E
           ELSE /\ "out" \in DOMAIN O /\ Len(O.out) = Len(Case.ops)
                /\ (Case.discover => Elems(O.addons) = Addons(Space0) /\ Len(O.addons) = Cardinality(Addons(Space0))
                                     /\ Elems(O.missions) = Missions(Space0) /\ Len(O.missions) = Cardinality(Missions(Space0)))
                /\ Follows(1, Space0)
Verdict == IF (NeedsClear /\ ~Clear) \/ Unclean THEN "domain" ELSE IF Good THEN "ok" ELSE "bad"
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson([i |-> c, v |-> Verdict]))
=============================================================================
