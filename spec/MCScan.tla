-------------------------------- MODULE MCScan --------------------------------
(* Every arrangement of a few directories in the two places, each with or     *)
(* without a prefix file, against what the scan and the discovery should say. *)
EXTENDS Space, Json
CONSTANTS Names, MaxDirs
VARIABLES sp
Marks == {"none", "own", "same", "other", "bad"}
TextFor(place, n, m) == CASE m = "own" -> "x\\m\\" \o n \o place [] m = "same" -> "x\\m\\same" [] m = "other" -> "version=1\nprefix=X\\M\\Same\n" [] m = "bad" -> "a/b"
Spots == {<<p, n>> : p \in {"addons", "optionals"}, n \in Names}
DirOf(s) == "/" \o s[1] \o "/" \o s[2]
FileFor(s, m) == DirOf(s) \o (IF m = "other" THEN "/PBOPREFIX.TXT" ELSE IF s[1] = "addons" THEN "/$PBOPREFIX$" ELSE "/$prefix$")
Nowhere == [disk |-> EmptyFn, dirs |-> {}, mem |-> <<>>, layers |-> <<>>]
NoSays == EmptyFn
Init == sp = Nowhere
Choose == /\ sp = Nowhere
          /\ \E D \in SUBSET Spots : Cardinality(D) <= MaxDirs /\ \E m \in [D -> Marks] :
               LET told == {s \in D : m[s] # "none"} IN
               sp' = [disk |-> [f \in {FileFor(s, m[s]) : s \in told} \cup {"/addons/readme.txt"} |->
                                IF f = "/addons/readme.txt" THEN "x" ELSE LET s == CHOOSE t \in told : FileFor(t, m[t]) = f IN TextFor(s[1], s[2], m[s])],
                      dirs |-> {DirOf(s) : s \in D}, mem |-> <<EmptyFn>>, layers |-> <<[is |-> "disk", at |-> "", type |-> "source"]>>]
Next == Choose

\* independently: of every directory below addons and optionals
Given == sp.dirs
MarkedDirs == {d \in Given : \E f \in DOMAIN sp.disk : Parent(f) = d}
Errs == ScanErrs(sp, NoSays)
Says == sp # Nowhere =>
  /\ (Errs = {}) = (/\ MarkedDirs = Given
                    /\ \A f \in DOMAIN sp.disk : sp.disk[f] # "a/b"
                    /\ \A d, e \in Given : d # e => LowS(Name(d)) # LowS(Name(e)))
  /\ Errs = {} => /\ Cardinality(Scanned(sp, NoSays)) = Cardinality(Given)
                  /\ \A d \in Given : \E a \in Scanned(sp, NoSays) : "/" \o a.folder = d /\ a.name = Name(d)
\* and no two declare one prefix
Value(f) == LowS(IF Contains(sp.disk[f], "=") THEN "x\\m\\same" ELSE sp.disk[f])
Apart == sp # Nowhere =>
  LET P == {f \in DOMAIN sp.disk : sp.disk[f] # "x"} IN
  (DiscoveryErrs(sp) = {}) = (/\ \A f \in P : sp.disk[f] # "a/b"
                              /\ \A f, g \in P : f # g => Value(f) # Value(g))
RECURSIVE AsList(_)
AsList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsList(S \ {x})
Emitted == sp # Nowhere => PrintT(ToJson([disk |-> sp.disk, dirs |-> AsList(sp.dirs), layers |-> sp.layers, ops |-> <<[op |-> "scan"]>>]))
===============================================================================
