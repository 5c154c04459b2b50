------------------------------ MODULE TraceBuild ------------------------------
(* Recorded runs of the command line, judged command by command: the exit     *)
(* code, every folder of output, the archives, and the project itself.        *)
EXTENDS Build, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, S, why, code
Case == Cases[c]
O == Case.obs
Broken == "ran" \notin DOMAIN O
Fn(f) == IF DOMAIN f = {} THEN NoFiles ELSE f

SameMarks(e, o) == e = SetOf(o) /\ Cardinality(e) = Len(o)
Map(e, o) == DOMAIN e = DOMAIN Fn(o)
\* hemtt: the version of the tool
SameProps(e, o) == DOMAIN e \cup {"hemtt"} = DOMAIN o /\ o.hemtt # "" /\ \A x \in DOMAIN e : e[x] = o[x]
SameFile(e, o) ==
  IF "is" \notin DOMAIN o THEN FALSE
  ELSE IF e.is # o.is THEN FALSE
  ELSE IF e.is \in {"rapified", "compiled"} THEN SameMarks(e.marks, o.marks)
  ELSE IF e.is = "text" THEN e.text = o.text
  ELSE \A x \in DOMAIN e : e[x] = o[x]
SamePbo(e, o) == /\ SameProps(e.props, o.props) /\ Map(e.files, o.files) /\ o.count = Cardinality(DOMAIN e.files)
                 /\ \A n \in DOMAIN e.files : SameFile(e.files[n], o.files[n])
SameThing(e, o) == IF e.is = "pbo" THEN o.is = "pbo" /\ SamePbo(e, o) ELSE SameFile(e, o)
SameFolder(e, o) == Map(e, o) /\ \A p \in DOMAIN e : SameThing(e[p], o[p])
SameZip(e, o) == o.is = "zip" /\ SameFolder(e.files, o.files)
SameDisk(src, o) == DOMAIN src = DOMAIN o /\ \A p \in DOMAIN src : src[p].t = o[p]
\* of a folder, the things of some kinds
Of(f, K) == [p \in {q \in DOMAIN Fn(f) : f[q].is \in K} |-> f[p]]
Same(e, o, K) == SameFolder(Of(e, K), Of(o, K))
Texts == {"text", "rapified", "compiled", "bytes", "link"}
SameRest(e, o) == Map(e, o) /\ Same(e, o, Texts)

(* What a script may have made: the files it names, by their last name.       *)
NamesIn(f) == UNION {LET o == f.ops[i] IN IF "path" \in DOMAIN o THEN {NameOf(o.path), WithExt(NameOf(o.path), "sqfc"), WithExt(NameOf(o.path), "bin")} ELSE {} : i \in 1..Len(f.ops)}
HookNames == UNION {IF f.k = "hook" THEN NamesIn(f) ELSE {} : f \in {Case.src[p] : p \in DOMAIN Case.src} \cup {Case.ops[i].file : i \in {j \in 1..Len(Case.ops) : Case.ops[j].op = "put"}}}
Made(f, N) == [n \in {m \in DOMAIN Fn(f) : NameOf(Swap(m, "\\", "/")) \in N} |-> f[n]]
SameMade(e, o, N) ==
  /\ SameFolder(Made(Of(e, Texts), N), Made(Of(o, Texts), N))
  /\ \A q \in DOMAIN Of(e, {"pbo"}) :
       /\ q \in DOMAIN Of(o, {"pbo"})
       /\ e[q].props["version"] = o[q].props["version"]
       /\ LET x == Made(e[q].files, N) y == Made(o[q].files, N) IN DOMAIN x = DOMAIN y /\ \A n \in DOMAIN x : SameFile(x[n], y[n])

(* The properties look at different parts of what a command leaves.           *)
Asks(x) == IOEnv.ASPECT = x
Differs(op, n, o) ==      \* n: the state and code specified
  LET f == op.c.cmd
      own == f \in DOMAIN n.S.out /\ f \in DOMAIN Fn(o.out)
      N == HookNames
  IN IF "code" \notin DOMAIN o THEN "no answer"
  ELSE IF o.code # n.code THEN "code"
  ELSE IF Asks("packed") THEN
    IF own /\ ~Same(n.S.out[f], o.out[f], {"pbo"}) THEN "packed" ELSE ""
  ELSE IF Asks("signed") THEN
    IF f = "release" /\ own /\ ~Same(n.S.out[f], o.out[f], {"sign", "key"}) THEN "signed"
    ELSE IF ~(Map(n.S.rel, o.releases) /\ \A z \in DOMAIN n.S.rel : SameZip(n.S.rel[z], o.releases[z])) THEN "archives" ELSE ""
  ELSE IF Asks("kept") THEN
    IF ~SameDisk(n.S.src, o.disk) THEN "project"
    ELSE IF DOMAIN Fn(o.out) # DOMAIN n.S.out THEN "folders"
    ELSE IF \E g \in DOMAIN n.S.out \ {f} : ~SameFolder(n.S.out[g], o.out[g]) THEN "other folders"
    ELSE IF own /\ ~SameRest(n.S.out[f], o.out[f]) THEN "beside"
    ELSE IF ~Map(n.S.rel, o.releases) THEN "archives" ELSE ""
  ELSE \* made
    IF ~SameDisk(n.S.src, o.disk) THEN "project"
    ELSE IF own /\ ~SameMade(n.S.out[f], o.out[f], N) THEN "made" ELSE ""

Init == c \in 1..Len(Cases) /\ k = 0 /\ code = 0 /\ S = Start(Cases[c].src) /\ why = (IF "ran" \in DOMAIN Cases[c].obs THEN "" ELSE "no answer")
Next == /\ why = "" /\ k < Len(Case.ops) /\ k' = k + 1 /\ UNCHANGED c
        /\ LET op == Case.ops[k + 1] IN
           IF op.op # "run" THEN S' = Edit(S, op) /\ UNCHANGED <<why, code>>
           ELSE LET n == Run(S, op.c) IN S' = n.S /\ code' = n.code /\ why' = Differs(op, n, O.ran[k + 1])
Done == why # "" \/ k = Len(Case.ops)
Judged == Done => PrintT(ToJson([i |-> c, v |-> IF why = "" THEN "ok" ELSE "bad", exp |-> [at |-> k, differs |-> why, expected |-> IF why = "" THEN <<>> ELSE S.out, archives |-> IF why = "" THEN <<>> ELSE S.rel, code |-> code]]))
=============================================================================
