-------------------------------- MODULE Space --------------------------------
(* A workspace: layers over a directory on disk and over memory, the prefixes *)
(* discovered in it, how a requested path is resolved, what a write changes;  *)
(* and the scan for addons.                                                   *)
(*                                                                            *)
(* A space is [disk: path -> text, dirs: set of paths, mem: layer -> (path -> *)
(* text), layers: sequence of [is, at, type], lowest first]. Paths begin with *)
(* "/"; the root is "".                                                       *)
EXTENDS Prefix, FiniteSets, TLC

EmptyFn == [x \in {} |-> ""]
Comps(p) == SelectSeq(SplitS(p, "/"), LAMBDA x : x # "" /\ x # ".")
PathOf(cs) == IF cs = <<>> THEN "" ELSE "/" \o JoinS(cs, "/")
RECURSIVE Down(_, _)
Down(at, cs) == IF cs = <<>> THEN at
                ELSE Down(IF cs[1] = ".." THEN (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)) ELSE Append(at, cs[1]), Tail(cs))
Wrong(p) == Len(p) > 1 /\ Ends(p, "/")
Join(base, p) == PathOf(Down(IF Starts(p, "/") THEN <<>> ELSE Comps(base), Comps(p)))
Parent(p) == LET cs == Comps(p) IN IF cs = <<>> THEN "" ELSE PathOf(SubSeq(cs, 1, Len(cs) - 1))
Name(p) == LET cs == Comps(p) IN IF cs = <<>> THEN "" ELSE cs[Len(cs)]
RECURSIVE LastDot(_, _)
LastDot(n, i) == IF i = 0 THEN 0 ELSE IF At(n, i) = "." THEN i ELSE LastDot(n, i - 1)
Stem(n) == LET i == LastDot(n, Len(n)) IN IF i = 0 THEN n ELSE SubSeq(n, 1, i - 1)
NoCr(t) == Swap(t, "\r", "")

-----------------------------------------------------------------------------
(* layers *)
Layers(sp) == 1..Len(sp.layers)
Top(sp) == Len(sp.layers)
Below(sp, i) == sp.layers[i].at
Has(sp, i, p) == IF sp.layers[i].is = "disk" THEN (Below(sp, i) \o p) \in DOMAIN sp.disk ELSE p \in DOMAIN sp.mem[i]
Content(sp, i, p) == IF sp.layers[i].is = "disk" THEN sp.disk[Below(sp, i) \o p] ELSE sp.mem[i][p]
HasDir(sp, i, p) ==
  \/ p = ""
  \/ IF sp.layers[i].is = "disk"
     THEN LET d == (Below(sp, i) \o p) \o "/" IN
          (\E f \in DOMAIN sp.disk : Starts(f, d)) \/ (\E e \in sp.dirs : Starts(e \o "/", d))
     ELSE \E f \in DOMAIN sp.mem[i] : Starts(f, p \o "/")
Holds(sp, i, p) == Has(sp, i, p) \/ HasDir(sp, i, p)
Givers(sp, p) == {i \in Layers(sp) : Holds(sp, i, p)}
Exists(sp, p) == Givers(sp, p) # {}
Giver(sp, p) == CHOOSE i \in Givers(sp, p) : \A j \in Givers(sp, p) : j <= i
IsFile(sp, p) == Exists(sp, p) /\ Has(sp, Giver(sp, p), p)
IsDir(sp, p) == Exists(sp, p) /\ ~Has(sp, Giver(sp, p), p)
Text(sp, p) == NoCr(Content(sp, Giver(sp, p), p))
FromInclude(sp, p) == \E i \in Layers(sp) : sp.layers[i].type = "include" /\ Holds(sp, i, p)
\* every file and directory the layers hold together
SeenIn(sp, i) == IF sp.layers[i].is = "disk"
                 THEN {Rest(f, Len(Below(sp, i))) : f \in {g \in DOMAIN sp.disk \cup sp.dirs : Starts(g, Below(sp, i) \o "/")}}
                 ELSE DOMAIN sp.mem[i]
RECURSIVE Ups(_)
Ups(p) == IF p = "" THEN {} ELSE {p} \cup Ups(Parent(p))
Entries(sp) == UNION {Ups(p) : p \in UNION {SeenIn(sp, i) : i \in Layers(sp)}}
FilesOf(sp) == {p \in Entries(sp) : IsFile(sp, p)}
Inside(sp, d) == {p \in Entries(sp) : Starts(p, d \o "/")}
Listed(sp, d) == {p \in Inside(sp, d) : Parent(p) = d}

\* a write goes to the layer on top, below a directory that is there
CanWrite(sp, p) == p # "" /\ IsDir(sp, Parent(p)) /\ ~HasDir(sp, Top(sp), p)
Written(sp, p, t) ==
  IF sp.layers[Top(sp)].is = "disk"
  THEN LET q == Below(sp, Top(sp)) \o p IN [sp EXCEPT !.disk = [f \in DOMAIN sp.disk \cup {q} |-> IF f = q THEN t ELSE sp.disk[f]]]
  ELSE [sp EXCEPT !.mem[Top(sp)] = [f \in DOMAIN sp.mem[Top(sp)] \cup {p} |-> IF f = p THEN t ELSE sp.mem[Top(sp)][f]]]

-----------------------------------------------------------------------------
(* discovery of prefixes *)
Searched(sp) == {p \in Entries(sp) : (Starts(p, "/include/") \/ Starts(p, "/addons/") \/ Starts(p, "/optionals/")) /\ ~Contains(p, ".hemtt")}
Addons(sp) == {p \in Searched(sp) : LowS(Name(p)) = "config.cpp"}
Missions(sp) == {p \in Searched(sp) : LowS(Name(p)) = "mission.sqm"}
Declaring(sp) == {p \in Searched(sp) : LowS(Name(p)) \in PrefixFiles}
Declared(sp, p) == PrefixOf(Content(sp, Giver(sp, p), p))
PlaceOf(pre) == "/" \o Swap(LowS(Shown(pre)), "\\", "/")
PrefixErr(e) == IF e = "empty" THEN "Empty" ELSE "InvalidPrefix"
DiscoveryErrs(sp) ==
  LET D == Declaring(sp) good == {p \in D : Declared(sp, p).ok} IN
  {PrefixErr(Declared(sp, p).err) : p \in D \ good}
  \cup (IF \E p, q \in good : p # q /\ PlaceOf(Declared(sp, p)) = PlaceOf(Declared(sp, q)) THEN {"DuplicatePrefix"} ELSE {})
\* place below a prefix -> directory
Pointers(sp) == LET D == Declaring(sp) IN
  [k \in {PlaceOf(Declared(sp, p)) : p \in D} |-> Parent(CHOOSE p \in D : PlaceOf(Declared(sp, p)) = k)]

-----------------------------------------------------------------------------
(* resolution *)
LowEq(a, b) == LowS(a) = LowS(b)
\* the same path on disk, ignoring case, from a directory of the project
OnDiskDirs(sp) == UNION {Ups(p) : p \in DOMAIN sp.disk \cup sp.dirs}
RECURSIVE Hunt(_, _, _)
Hunt(sp, at, cs) ==
  IF cs = <<>> THEN <<at>>
  ELSE IF cs[1] = ".." THEN (IF at = "" THEN <<>> ELSE Hunt(sp, Parent(at), Tail(cs)))
  ELSE LET m == {p \in OnDiskDirs(sp) : Parent(p) = at /\ LowEq(Name(p), cs[1])} IN
       IF m = {} THEN <<>> ELSE Hunt(sp, CHOOSE p \in m : TRUE, Tail(cs))
OnDisk(sp, p) == LET a == Hunt(sp, "", Comps(p)) IN
                 IF a # <<>> THEN a
                 ELSE IF "/include" \in OnDiskDirs(sp) THEN Hunt(sp, "/include", Comps(p)) ELSE <<>>
None == [is |-> "none"]
Found(p) == [is |-> "found", path |-> p]
CaseOff(p, asked) == LowEq(p, asked) /\ p # asked
Told(p, asked) == IF CaseOff(p, asked) THEN [is |-> "found", path |-> p, mismatch |-> p] ELSE Found(p)
Otherwise(p) == [is |-> "found", path |-> p, mismatch |-> "." \o p]
\* the longest prefix a path begins with
Candidates(ptr, q) == {k \in DOMAIN ptr : Starts(LowS(q), k \o "/")}
Longest(S) == CHOOSE k \in S : \A j \in S : Len(j) <= Len(k)
Locate(sp, ptr, from, asked) ==
  LET q == Swap(asked, "\\", "/")
      here == Join(Parent(from), q)
      Here == IF Exists(sp, here) THEN Told(here, q) ELSE None
  IN IF Wrong(q) THEN [is |-> "vfs"]
     ELSE IF ~Starts(q, "/") THEN Here
     ELSE IF Exists(sp, Join("", q)) THEN Told(Join("", q), q)
     ELSE LET C == Candidates(ptr, q) IN
          IF C = {} THEN (LET d == OnDisk(sp, q) IN IF d = <<>> THEN None ELSE Otherwise(d[1]))
          ELSE LET k == Longest(C)
                   p == Join(ptr[k], Rest(q, Len(k) + 1))
               IN IF Exists(sp, p) THEN Told(p, q)
                  ELSE LET d == OnDisk(sp, p) IN IF d = <<>> THEN None ELSE Otherwise(d[1])

\* how a path is called in the game
Virtual(ptr, p) ==
  LET C == {k \in DOMAIN ptr : Starts(LowS(p), LowS(ptr[k]) \o "/")}
      best == {k \in C : \A j \in C : Len(ptr[j]) <= Len(ptr[k])}
      b == CHOOSE k \in best : \A j \in best : j = k \/ LessS(j, k)
  IN IF C = {} THEN p ELSE b \o Rest(p, Len(ptr[b]))

-----------------------------------------------------------------------------
(* what an operation answers *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : y = x \/ LessS(x, y) IN <<x>> \o Sorted(S \ {x})
Vfs == [err |-> "vfs"]
Located(sp, ptr, r) ==
  CASE r.is = "vfs" -> Vfs
    [] r.is = "none" -> [none |-> TRUE]
    [] OTHER -> [path |-> r.path, include |-> FromInclude(sp, r.path), virtual |-> Virtual(ptr, r.path)]
                @@ (IF "mismatch" \in DOMAIN r THEN [mismatch |-> r.mismatch] ELSE EmptyFn)
                @@ (IF IsFile(sp, r.path) THEN [text |-> Text(sp, r.path)] ELSE EmptyFn)
Expect(sp, ptr, op) ==
  CASE op.op = "locate" -> Located(sp, ptr, Locate(sp, ptr, op.from, op.path))
    [] op.op = "write" -> IF CanWrite(sp, op.path) THEN [done |-> TRUE] ELSE Vfs
    [] op.op = "read" -> IF IsFile(sp, op.path) THEN [text |-> Text(sp, op.path)] ELSE Vfs
    [] op.op = "virtual" -> [virtual |-> Virtual(ptr, op.path)]
    [] op.op = "include" -> [include |-> FromInclude(sp, op.path)]
    [] op.op = "is" -> [exists |-> Exists(sp, op.path), file |-> IsFile(sp, op.path), dir |-> IsDir(sp, op.path)]
    [] op.op = "list" -> IF IsDir(sp, op.path) THEN [list |-> Sorted(Listed(sp, op.path))] ELSE Vfs
    [] op.op = "walk" -> IF IsDir(sp, op.path) THEN [list |-> Sorted(Inside(sp, op.path))] ELSE Vfs
    [] op.op = "names" -> LET n == Name(op.path) i == LastDot(n, Len(n)) IN
                          [name |-> n, parent |-> Parent(op.path), with |-> Parent(op.path) \o "/" \o Stem(n) \o ".bin"]
                          @@ (IF i > 1 THEN [ext |-> Rest(n, i)] ELSE EmptyFn)
After(sp, op) == IF op.op = "write" /\ CanWrite(sp, op.path) THEN Written(sp, op.path, op.text) ELSE sp

-----------------------------------------------------------------------------
(* the scan for addons: by what is on disk *)
Places == <<"addons", "optionals">>
DirsAt(sp, place) == {p \in OnDiskDirs(sp) : Parent(p) = "/" \o place /\ p \notin DOMAIN sp.disk}
FileOrder == <<"$pboprefix$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$", "$PBOPREFIX$", "$PBOPREFIX$.TXT", "PBOPREFIX.TXT", "$PREFIX$">>
Declares(sp, d) == {i \in 1..Len(FileOrder) : (d \o "/" \o FileOrder[i]) \in DOMAIN sp.disk}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
PrefixIn(sp, d) == PrefixOf(sp.disk[d \o "/" \o FileOrder[First(Declares(sp, d))]])
ConfIn(sp, d) == (d \o "/addon.toml") \in DOMAIN sp.disk
\* what the file says is given with the case: path -> settings
ConfErr(sp, d, says) == IF ~ConfIn(sp, d) THEN "" ELSE LET c == says[d \o "/addon.toml"] IN
                        IF "broken" \in DOMAIN c THEN "toml" ELSE IF "preprocess" \in DOMAIN c THEN "config-invalid" ELSE ""
FaultsIn(sp, d, says) ==
  IF ConfErr(sp, d, says) # "" THEN [err |-> ConfErr(sp, d, says)]
  ELSE IF Declares(sp, d) = {} THEN [err |-> "prefix-missing", of |-> Name(d)]
  ELSE IF ~PrefixIn(sp, d).ok THEN [err |-> PrefixErr(PrefixIn(sp, d).err)]
  ELSE [err |-> ""]
FaultsAt(sp, place, says) == {FaultsIn(sp, d, says) : d \in DirsAt(sp, place)} \ {[err |-> ""]}
Clashes(sp) ==
  LET All == DirsAt(sp, "addons") \cup DirsAt(sp, "optionals") IN
  {[err |-> "name-duplicate", of |-> Name(d)] : d \in {e \in All : \E f \in All : LowEq(Name(e), Name(f)) /\ Name(e) # Name(f)}}
  \cup {[err |-> "duplicate", of |-> Name(d)] : d \in {e \in All : \E f \in All : f # e /\ Name(e) = Name(f)}}
\* the errors a scan may end with; none: it succeeds
ScanErrs(sp, says) == IF FaultsAt(sp, "addons", says) # {} THEN FaultsAt(sp, "addons", says)
                      ELSE IF FaultsAt(sp, "optionals", says) # {} THEN FaultsAt(sp, "optionals", says)
                      ELSE Clashes(sp)
Or(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Settings(c) == [rapify |-> Or(c, "rapify", TRUE), rapify_exclude |-> Or(c, "rapify_exclude", <<>>),
                binarize |-> Or(c, "binarize", TRUE), binarize_exclude |-> Or(c, "binarize_exclude", <<>>) \o Or(c, "no_bin", <<>>),
                properties |-> Or(c, "properties", EmptyFn), exclude |-> Or(c, "files_exclude", <<>>) \o Or(c, "exclude", <<>>)]
Addon(sp, place, d, says) ==
  LET a == [name |-> Name(d), at |-> place, prefix |-> Shown(PrefixIn(sp, d)), pbo |-> "p_" \o Name(d),
            folder |-> place \o "/" \o Name(d), folder_path |-> place \o "/" \o Name(d)]
  IN IF ConfIn(sp, d) THEN a @@ [config |-> Settings(says[d \o "/addon.toml"])] ELSE a
Scanned(sp, says) == {Addon(sp, "addons", d, says) : d \in DirsAt(sp, "addons")} \cup {Addon(sp, "optionals", d, says) : d \in DirsAt(sp, "optionals")}
=============================================================================
