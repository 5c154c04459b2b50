------------------------------ MODULE TraceCfg ------------------------------
(* Configs read by the code, judged against Cfg.                              *)
EXTENDS Cfg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, chars, x
vars == <<c, n, chars, x>>
Case == Cases[c]
Text == Case.files["/a.hpp"]
Broken(o) == "panic" \in DOMAIN o \/ "crash" \in DOMAIN o \/ "hang" \in DOMAIN o
RECURSIVE Contains(_, _, _)
Contains(s, ch, i) == i <= Len(s) /\ (Ch(s, i) = ch \/ Contains(s, ch, i + 1))
Outside == Contains(Text, "#", 1)
PureAscii == ~Contains(Text, "~", 1) /\ ~Contains(Text, "`", 1)

Init == c \in 1..Len(Cases) /\ n = 0 /\ chars = <<>> /\ x = ParseStart
Next == /\ x.ph = "read" /\ UNCHANGED c /\ n' = n + 1
        /\ IF n = 0 THEN chars' = CharsOf(Text) /\ UNCHANGED x
           ELSE x' = ParseStep(chars.c, x) /\ UNCHANGED chars
View == <<c, n>>

Ids == {"L-C02", "L-C03", "L-C04"}
\* positions in the tree are positions among the characters; reports give offsets
Off(p) == chars.o[p]
Reported(o, id) == {[id |-> r.id, at |-> {r.at[k][2] : k \in 1..Len(r.at)}] : r \in {r \in {o.codes[k] : k \in 1..Len(o.codes)} : r.id = id}}
Want(S) == {[id |-> r.id, at |-> {Off(p) : p \in r.at}] : r \in S}
Firsts(o, id) == {r.at[1][2] : r \in {r \in {o.codes[k] : k \in 1..Len(o.codes)} : r.id = id /\ r.at # <<>>}}

ErrorShown(o) == "rejected" \in DOMAIN o \/ "err" \in DOMAIN o
                 \/ ("codes" \in DOMAIN o /\ \E k \in 1..Len(o.codes) : o.codes[k].sev = "error" /\ o.codes[k].shown)

GoodOk(o) ==
  LET F == Flat(Tree(x))
      errs == C02(F) \cup C03(F) \cup C04(F)
      P == WithParent(F)
  IN /\ "codes" \in DOMAIN o
     /\ \A k \in 1..Len(o.codes) : o.codes[k].id \in Ids \cup {"L-C05"} /\ o.codes[k].shown
     /\ \A k \in 1..Len(o.codes) : o.codes[k].id \in Ids => o.codes[k].sev = "error"
     /\ IF PureAscii THEN
          /\ Reported(o, "L-C02") = Want(C02(F)) /\ Reported(o, "L-C03") = Want(C03(F)) /\ Reported(o, "L-C04") = Want(C04(F))
          /\ {Off(F[i].po) : i \in {i \in P : C05Sure(F, i)}} \subseteq Firsts(o, "L-C05")
          /\ Firsts(o, "L-C05") \subseteq {Off(F[i].po) : i \in {i \in P : C05Maybe(F, i)}}
        ELSE /\ \A id \in Ids : (Reported(o, id) = {}) = ({r \in errs : r.id = id} = {})
             /\ (\E i \in P : C05Sure(F, i)) => Firsts(o, "L-C05") # {}
             /\ Firsts(o, "L-C05") # {} => \E i \in P : C05Maybe(F, i)
     /\ IF \E k \in 1..Len(o.codes) : o.codes[k].sev = "error" THEN "bytes" \notin DOMAIN o
        ELSE /\ "bytes" \in DOMAIN o /\ o.written = Len(o.bytes) /\ o.length = Len(o.bytes)
             /\ LET d == DecodeCfg(o.bytes) IN d.i # 0 /\ SameTree(Tree(x), d.v)

Judged ==
  LET o == Case.obs IN
  IF x.ph = "read" THEN TRUE
  ELSE IF Outside THEN PrintT(ToJson([i |-> c, v |-> "domain"]))
  ELSE IF Broken(o) THEN PrintT(ToJson([i |-> c, v |-> "bad", exp |-> x.ph]))
  ELSE IF x.ph = "bad" THEN PrintT(ToJson(IF ErrorShown(o) THEN [i |-> c, v |-> "ok"] ELSE [i |-> c, v |-> "bad", exp |-> "an error"]))
  ELSE PrintT(ToJson(IF GoodOk(o) THEN [i |-> c, v |-> "ok"] ELSE [i |-> c, v |-> "bad", exp |-> Tree(x)]))
=============================================================================
