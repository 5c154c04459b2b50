------------------------------- MODULE TraceP3d -------------------------------
(* Recorded readings and writings of model files. Case.kind "write": a model  *)
(* was written (obs.file or obs.err), into a place that fails behind cap      *)
(* bytes when cap is given, and read again (obs.back). "read": a file was     *)
(* read (obs.model or obs.err) and written again (obs.again).                 *)
EXTENDS P3d, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O
Err(o) == "err" \in DOMAIN o
V(s, key) == IF key = "" THEN [i |-> c, v |-> s] ELSE [i |-> c, v |-> s, key |-> key]
Is(b) == V(IF b THEN "ok" ELSE "bad", "")

\* what is known to be lost: a name that is no text, the earlier of two tags of one name
Blank(n) == IF IsText(n) THEN n ELSE <<>>
RECURSIVE LastOf(_, _)
LastOf(ts, acc) == IF ts = <<>> THEN acc
                   ELSE LET t == Head(ts) S == {i \in 1..Len(acc) : acc[i].name = t.name} IN
                        LastOf(Tail(ts), IF S = {} THEN Append(acc, t) ELSE [acc EXCEPT ![CHOOSE i \in S : TRUE] = t])
Lost(l) == [l EXCEPT !.faces = [i \in 1..Len(@) |-> [@[i] EXCEPT !.texture = Blank(@), !.material = Blank(@)]],
                     !.tags = LastOf([i \in 1..Len(@) |-> [@[i] EXCEPT !.name = Blank(@)]], <<>>)]
Less(m) == [m EXCEPT !.lods = [i \in 1..Len(@) |-> Lost(@[i])]]
Key(m) == IF ~AllText(m) THEN "name-not-text" ELSE "tags-of-one-name"

ReadVerdict ==
  LET r == Read(Case.file) IN
  IF Broken THEN Is(FALSE)
  ELSE IF ~r.ok THEN Is(Err(O))
  \* (bytes behind the last level of detail may be refused)
  ELSE IF Err(O) THEN (IF r.at <= Len(Case.file) THEN V("domain", "") ELSE Is(~AllText(r.v)))
  ELSE IF O.model = r.v /\ O.again = Bytes(r.v) THEN Is(TRUE)
  ELSE IF O.model = Less(r.v) /\ O.again = Bytes(Less(r.v)) THEN V("bad", Key(r.v))
  ELSE Is(FALSE)

WriteVerdict ==
  LET m == Case.model f == Bytes(m) IN
  IF ~Sayable(m) \/ ~OneEach(m) THEN V("domain", "")
  ELSE IF Broken THEN Is(FALSE)
  ELSE IF ~Writable(m) THEN Is(Err(O))
  ELSE IF "cap" \in DOMAIN Case /\ Case.cap < Len(f) THEN Is(Err(O))
  ELSE Is(~Err(O) /\ O.file = f /\ O.back = m)
Init == c \in 1..Len(Cases) /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED c
Judged == k = 1 => PrintT(ToJson(IF Case.kind = "read" THEN ReadVerdict ELSE WriteVerdict))
=============================================================================
