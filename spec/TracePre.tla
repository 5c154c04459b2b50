------------------------------ MODULE TracePre ------------------------------
(* Runs recorded from the real preprocessor, judged against Pre: every case   *)
(* is a program and what the code reported for it.                            *)
EXTENDS Pre, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n        \* case; steps taken in it
tvars == <<prog, m, phase, c, n>>

TraceInit == \E i \in 1..Len(Cases) : c = i /\ n = 0 /\ InitWith([root |-> Cases[i].root, files |-> Cases[i].files])
TraceNext == Next /\ UNCHANGED c /\ n' = n + 1

\* the machine is deterministic: the case and the number of steps identify a state
TraceView == <<c, n>>

Count(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(a, b) == \A e \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} : Count(a, e) = Count(b, e)
Kind(ws, k) == SelectSeq(ws, LAMBDA w : StartsWith(w, k))

Matches(exp, obs) ==
  IF "err" \in DOMAIN exp THEN "err" \in DOMAIN obs /\ exp.err = obs.err
  ELSE /\ "out" \in DOMAIN obs
       /\ exp.out = obs.out
       /\ exp.norapify = obs.norapify
       /\ SameBag(Kind(exp.warn, "PW3"), Kind(obs.warn, "PW3"))
       /\ SameBag(Kind(exp.warn, "PW1"), Kind(obs.warn, "PW1"))
       /\ "maps" \in DOMAIN obs => exp.maps = obs.maps /\ exp.leaves = obs.leaves

Judged ==
  phase = "done" =>
    LET e == Obs(m) IN
    IF "err" \in DOMAIN e /\ e.err = "DOMAIN" THEN PrintT(ToJson([i |-> c, v |-> "domain"]))
    ELSE IF Matches(e, Cases[c].obs) THEN PrintT(ToJson([i |-> c, v |-> "ok"]))
    ELSE PrintT(ToJson([i |-> c, v |-> "bad", exp |-> e]))

\* holds between lines, in every state of every run
Balanced == m.err = "" => m.stk = <<>> /\ m.exp = <<>>
=============================================================================
