------------------------------- MODULE MCSpace -------------------------------
(* Part "find": every arrangement of a few files, prefixes and layers, every  *)
(* request. Part "write": every short history of writes and reads over the    *)
(* layers.                                                                    *)
EXTENDS Space, Json
CONSTANTS Part, MaxFiles, MaxOps
VARIABLES sp, hist, asked, start, wrote
Disk(a, t) == [is |-> "disk", at |-> a, type |-> t]
Memory == [is |-> "memory", at |-> "", type |-> "build"]
Stacks == CASE Part = "find" -> {<<Disk("", "source")>>, <<Disk("", "source"), Disk("/include", "include")>>}
            [] OTHER -> {<<Disk("", "source"), Disk("/include", "include"), Memory>>, <<Disk("/include", "include"), Disk("", "source")>>,
                         <<Disk("", "source"), Memory, Disk("/include", "include")>>}
Pool == CASE Part = "find" -> {"/addons/m/F.h", "/addons/m/g.h", "/F.h", "/x/m/F.h", "/include/x/m/F.h", "/include/x/m/b/g.h", "/addons/m/b/g.h"}
          [] OTHER -> {"/addons/f.h", "/include/addons/f.h", "/include/addons/g.h"}
Prefixes == CASE Part = "find" -> {EmptyFn, [p \in {"/addons/m/$PBOPREFIX$"} |-> "X\\m"], [p \in {"/addons/m/$PBOPREFIX$"} |-> "x"],
                                   [p \in {"/addons/m/$PBOPREFIX$", "/addons/m/b/pboprefix.txt"} |-> IF p = "/addons/m/$PBOPREFIX$" THEN "x\\m" ELSE "prefix=x\\m\\b\n"],
                                   [p \in {"/addons/m/$PBOPREFIX$", "/include/x/m/$prefix$"} |-> "x\\m"],
                                   [p \in {"/addons/m/$PBOPREFIX$", "/include/x/m/$prefix$"} |-> IF p = "/addons/m/$PBOPREFIX$" THEN "addons\\M" ELSE "x\\m"]}
              [] OTHER -> {EmptyFn}
Requests == {"/x/m/F.h", "\\X\\m\\F.h", "/x/m/f.H", "/x/m/b/g.h", "\\x\\M\\B\\..\\F.h", "/x/F.h", "/xm/F.h", "/f.h", "F.h", "g.h", "..\\F.h", "../m/g.h", "/addons/M/g.h", "/x/m", "b", "/x/m/"}
Froms == {"/addons/m/config.cpp", "/config.cpp"}
Ops == {[op |-> "write", path |-> p, text |-> t] : p \in {"/addons/f.h", "/addons/n.h"}, t \in {"1", "2"}}
       \cup {[op |-> o, path |-> p] : o \in {"read", "include"}, p \in {"/addons/f.h", "/addons/n.h", "/addons/g.h", "/include/addons/f.h"}}
       \cup {[op |-> "write", path |-> "/addons/q/n.h", text |-> "1"], [op |-> "list", path |-> "/addons"]}

Nowhere == [disk |-> EmptyFn, dirs |-> {}, mem |-> <<>>, layers |-> <<>>]
Init == sp = Nowhere /\ start = Nowhere /\ hist = <<>> /\ asked = <<>> /\ wrote = EmptyFn
Choose == /\ sp = Nowhere
          /\ \E L \in Stacks, F \in SUBSET Pool, P \in Prefixes :
               /\ Cardinality(F) <= MaxFiles
               /\ sp' = [layers |-> L, disk |-> P @@ [f \in F |-> f], dirs |-> {"/include"}, mem |-> [i \in 1..Len(L) |-> EmptyFn]]
          /\ start' = sp' /\ UNCHANGED <<hist, asked, wrote>>
Ask == Part = "find" /\ sp # Nowhere /\ asked = <<>> /\ DiscoveryErrs(sp) = {} /\ \E f \in Froms, q \in Requests : asked' = <<f, q, Locate(sp, Pointers(sp), f, q)>> /\ UNCHANGED <<sp, hist, start, wrote>>
Do == /\ Part = "write" /\ sp # Nowhere /\ Len(hist) < MaxOps
      /\ \E o \in Ops : /\ hist' = Append(hist, o @@ [exp |-> Expect(sp, EmptyFn, o)])
                        /\ sp' = After(sp, o)
                        /\ wrote' = IF o.op = "write" /\ CanWrite(sp, o.path) THEN [p \in DOMAIN wrote \cup {o.path} |-> IF p = o.path THEN o.text ELSE wrote[p]] ELSE wrote
      /\ UNCHANGED <<asked, start>>
Next == Choose \/ Ask \/ Do

\* what the property says, without the order in which the code looks
Answer == asked[3]
Slashed(q) == Swap(q, "\\", "/")
AbsoluteFirst == asked # <<>> /\ ~Wrong(Slashed(asked[2])) /\ Starts(Slashed(asked[2]), "/") /\ Exists(sp, Join("", Slashed(asked[2]))) =>
                 Answer = Found(Join("", Slashed(asked[2])))
ThereIfFound == asked # <<>> /\ Answer.is = "found" => Exists(sp, Answer.path)
\* where the longest prefix puts it
Placed == LET q == Slashed(asked[2]) C == {p \in Declaring(sp) : Starts(LowS(q), PlaceOf(Declared(sp, p)) \o "/")}
          IN {Join(Parent(p), "./" \o Rest(q, Len(PlaceOf(Declared(sp, p))) + 1)) :
              p \in {x \in C : \A y \in C : Len(PlaceOf(Declared(sp, y))) <= Len(PlaceOf(Declared(sp, x)))}}
AnyCase(p) == {e \in Entries(sp) : \E w \in {"", "/include"} : LowEq(e, w \o p)}
Resolution == asked # <<>> =>
  LET q == Slashed(asked[2]) abs == Join("", q) rel == Join(Parent(asked[1]), q) IN
  \/ Wrong(q) /\ Answer.is = "vfs"
  \/ ~Wrong(q) /\ ~Starts(q, "/") /\ (Answer.is = "found") = Exists(sp, rel) /\ (Exists(sp, rel) => Answer.path = rel)
  \/ ~Wrong(q) /\ Starts(q, "/") /\ Exists(sp, abs) /\ Answer.path = abs
  \/ ~Wrong(q) /\ Starts(q, "/") /\ ~Exists(sp, abs) /\ Placed # {} /\
       LET p == CHOOSE x \in Placed : TRUE IN
       IF Exists(sp, p) THEN Answer.is = "found" /\ Answer.path = p
       ELSE IF AnyCase(p) = {} THEN Answer.is = "none" ELSE Answer.is = "found" /\ Answer.path \in AnyCase(p) /\ "mismatch" \in DOMAIN Answer
  \/ ~Wrong(q) /\ Starts(q, "/") /\ ~Exists(sp, abs) /\ Placed = {} /\
       \* (on disk, what is left again has to be there)
       IF AnyCase(abs) = {} \/ (Contains(q, "..") /\ Answer.is = "none") THEN Answer.is = "none" ELSE Answer.is = "found" /\ Answer.path \in AnyCase(abs) /\ "mismatch" \in DOMAIN Answer
SlashesAlike == asked # <<>> /\ Contains(asked[2], "\\") => Answer = Locate(sp, Pointers(sp), asked[1], Slashed(asked[2]))
CaseOfPrefix == asked # <<>> /\ Answer.is = "none" /\ Placed # {} => Locate(sp, Pointers(sp), asked[1], LowS(asked[2])).is # "found"
                                                                     \/ Exists(sp, Join("", LowS(Slashed(asked[2]))))
\* what is found can be found again by its name in the game, unless that is the name of another
Again == asked # <<>> /\ Answer.is = "found" /\ Answer.path # "" =>
         LET v == Virtual(Pointers(sp), Answer.path) IN
         Exists(sp, v) \/ (LET b == Locate(sp, Pointers(sp), asked[1], v) IN b.is = "found" /\ b.path = Answer.path)

\* only the layer on top changes, and what was written is what is read
ReadBack == \A p \in DOMAIN wrote : IsFile(sp, p) /\ Text(sp, p) = wrote[p]
\* on disk nothing changes but below the layer on top
Below0 == LET top == sp.layers[Top(sp)] IN sp # Nowhere =>
          \A f \in DOMAIN sp.disk : (f \in DOMAIN start.disk /\ sp.disk[f] = start.disk[f]) \/ (top.is = "disk" /\ Starts(f, top.at \o "/"))
MiddleEmpty == Part = "write" /\ sp # Nowhere => \A i \in Layers(sp) : i # Top(sp) => sp.mem[i] = EmptyFn
TopWins == sp # Nowhere => \A p \in Entries(sp) : IsFile(sp, p) => Text(sp, p) = NoCr(Content(sp, Giver(sp, p), p)) /\ \A i \in Layers(sp) : i > Giver(sp, p) => ~Holds(sp, i, p)

RECURSIVE AsList(_)
AsList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsList(S \ {x})
FindOut == Part = "find" /\ sp # Nowhere /\ asked = <<>> =>
           PrintT(ToJson([disk |-> sp.disk, dirs |-> AsList(sp.dirs), layers |-> sp.layers,
                          ops |-> AsList({[op |-> "locate", from |-> f, path |-> q] : f \in Froms, q \in Requests})]))
WriteOut == Part = "write" /\ Len(hist) = MaxOps =>
            PrintT(ToJson([disk |-> start.disk, left |-> sp.disk, dirs |-> AsList(sp.dirs), layers |-> sp.layers, ops |-> hist]))
=============================================================================
