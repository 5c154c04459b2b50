----------------------------- MODULE TraceSign -----------------------------
(* Recorded signings and verifications, and recorded files of keys, judged.   *)
EXTENDS Sign, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O
T == [key |-> Case.key, archive |-> Case.archive, version |-> Case.version, alter |-> Case.alter.what, with |-> Case.with, checked |-> Case.checked]

SignOk ==
  IF "unsigned" \in DOMAIN O THEN NoFiles(T.archive)
  ELSE /\ O.verified => ~MustFail(T)
       /\ MustPass(T) => O.verified
       \* and as the mechanism says
       /\ O.verified = Verify(T.with, T.checked, Alter(SignIt(T.key, T.archive, T.version), T.alter, T.with))

FileOk(kind, b, i) ==
  /\ Len(b) = SizeOfFile(kind, Case.key)
  /\ StartsWithBytes(b, HeadOf(kind, Case.key))
  /\ ExponentIn(b, Case.key) = U32(65537)
  /\ O.again[i] = b
  /\ O.tries[i].cuts = <<>>
  /\ \A j \in 1..Len(O.tries[i].labels) : ~O.tries[i].labels[j]
FilesOk ==
  LET n == ModulusIn(O.private, Case.key) IN
  /\ FileOk("private", O.private, 1) /\ FileOk("public", O.public, 2) /\ FileOk("sig", O.sig, 3)
  /\ ModulusIn(O.public, Case.key) = n /\ ModulusIn(O.sig, Case.key) = n
  /\ LET l == Case.key.len \div 8 at == Len(Case.key.auth) + 26 + l IN
     /\ SubSeq(O.sig, at, at + 3) = U32(l)
     /\ SubSeq(O.sig, at + 4 + l, at + 11 + l) = U32(Case.version) \o U32(l)
     /\ SubSeq(O.sig, at + 12 + 2 * l, at + 15 + 2 * l) = U32(l)
  /\ O.derived = O.public /\ O.resigned = O.sig /\ O.valid
  /\ \A i \in 1..4 : O.auth[i] = Case.key.auth /\ O.len[i] = Case.key.len
  /\ \A i \in 1..2 : O.version[i] = Case.version
  /\ \A i \in 1..3 : O.verify[i]
  /\ O.shown
  /\ \A i \in 1..5 : ~O.mixed[i]

Good == ~Broken /\ (IF Case.kind = "files" THEN FilesOk ELSE SignOk)
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson([i |-> c, v |-> IF Good THEN "ok" ELSE "bad"]))
=============================================================================
