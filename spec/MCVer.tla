------------------------------- MODULE MCVer -------------------------------
(* Every text of a few pieces as a version; and the order of all versions     *)
(* that come out.                                                             *)
EXTENDS Ver, TLC, Json
CONSTANTS MaxToks, Start
Toks == {"0", "1", "10", "4294967296", ".", "-", "a", " ", "007"}
VARIABLES n, text, v
Init == n = 0 /\ text = Start /\ v = Parse(Start)
Next == n < MaxToks /\ \E t \in Toks : n' = n + 1 /\ text' = text \o t /\ v' = Parse(text \o t)

\* printed and read again it is the same
Again == ~IsErr(v) => Parse(Printed(v)) = v /\ Printed(Parse(Printed(v))) = Printed(v)
\* an accepted text begins with its version's numbers
Numbers == ~IsErr(v) => LET t == SplitS(text, "-")[1] p == SplitS(t, ".") IN
              /\ Len(p) \in {3, 4} /\ \A i \in 1..Len(p) : p[i] # "" /\ AllDigits(p[i])
              /\ (v.build = None) = (Len(p) = 3) /\ (v.hash = None) = ~Contains(text, "-")
Emitted == PrintT(ToJson([text |-> text, exp |-> IF IsErr(v) THEN v ELSE [print |-> Printed(v)]]))
=============================================================================
