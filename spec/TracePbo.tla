------------------------------ MODULE TracePbo ------------------------------
(* Recorded histories of archives and recorded readings of bytes, judged      *)
(* against Pbo step by step.                                                  *)
EXTENDS Pbo, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, st, bad
vars == <<c, k, st, bad>>
Case == Cases[c]
Lens == IF "blobs" \in DOMAIN Case THEN [i \in 1..Len(Case.blobs) |-> Case.blobs[i].len] ELSE <<>>
Broken(o) == "panic" \in DOMAIN o \/ "crash" \in DOMAIN o \/ "hang" \in DOMAIN o
IsRead == "bytes" \in DOMAIN Case

Range(s) == {s[i] : i \in 1..Len(s)}
HeadersOf(S) == {f.h : f \in S}
Ordered(hs) == \A i \in 1..(Len(hs) - 1) : ~LessBytes(LowBytes(hs[i + 1].name), LowBytes(hs[i].name))

\* what was found for a query, given the files there are
FoundOk(S, q, r) ==
  LET A == Answers(S, q) IN
  /\ r.found = (A # {}) /\ r.located = (A # {})
  /\ A # {} => (\E f \in A : r.data = f.d /\ r.at = f.d)
  /\ "header" \in DOMAIN r => r.header \in HeadersOf(Loose(S, q))
  /\ Exact(S, q) # {} => "header" \in DOMAIN r /\ r.header \in HeadersOf(Exact(S, q))

\* an archive written for s and what reading it reports
WriteOk(s, with, o) ==
  /\ "err" \notin DOMAIN o
  /\ o.len = LayoutLen(InOrder(s.files), PrefixFirst(s.props), with, Lens) + 21
  /\ o.gap = 0
  /\ Cardinality({o.ret, o.sha, o.tail}) = 1
  /\ "err" \notin DOMAIN o.read
  /\ o.read.stored = o.sha /\ o.read.regen = o.sha
  /\ LET r == o.read
         ps == r.props
         fs == [i \in 1..Len(r.files) |-> The({f \in s.files : f.h = r.files[i]})] IN
     /\ Len(r.files) = Cardinality(s.files) /\ Range(r.files) = HeadersOf(s.files)
     /\ Ordered(r.files) /\ r.inorder /\ r.sorted = r.files
     /\ IF with THEN /\ Len(ps) = Len(s.props) /\ Range(ps) = Range(s.props)
                     /\ PropAt(ps, PrefixKey) \in {0, 1}
        ELSE ps = <<>>
     /\ \A i \in 1..Len(Case.queries) : FoundOk(s.files, Case.queries[i], r.found[i])
     /\ "body" \in DOMAIN o => o.body = Layout(fs, ps, with)

ListOk(s, o) ==
  /\ o.n = Cardinality(s.files) /\ Len(o.sorted) = o.n /\ Range(o.sorted) = HeadersOf(s.files) /\ Ordered(o.sorted)
  /\ Len(o.props) = Len(s.props) /\ Range(o.props) = Range(s.props)
GetOk(s, op, o) ==
  LET A == Exact(s.files, op.name) IN
  /\ A # {} => "data" \in DOMAIN o
  /\ "data" \in DOMAIN o => \E f \in Answers(s.files, op.name) : o.data = f.d
PeekOk(s, op, o) == LET i == PropAt(s.props, op.k) IN
  IF i = 0 THEN "v" \notin DOMAIN o ELSE "v" \in DOMAIN o /\ o.v = s.props[i][2]

StepOk(s, op, o) ==
  CASE op.op = "write" -> WriteOk(s, op.props, o)
    [] op.op = "list" -> ListOk(s, o)
    [] op.op = "get" -> GetOk(s, op, o)
    [] op.op = "peek" -> PeekOk(s, op, o)
    [] OTHER -> o = Answer(s, op, Lens)

RECURSIVE Final(_, _, _)
Final(s, ops, i) == IF i > Len(ops) THEN s ELSE Final(After(s, ops[i], Lens), ops, i + 1)
\* both histories end with the same content: then they end with the same bytes
SameEnd ==
  LET a == Final(Empty, Case.ops, 1) b == Final(Empty, Case.other, 1)
      x == Case.obs.log[Len(Case.ops)] y == Case.obs.other[Len(Case.other)] IN
  a.files = b.files /\ a.props = b.props =>
    x.ret = y.ret /\ x.len = y.len /\ ("body" \in DOMAIN x => x.body = y.body)

ReadOk(b, o) ==
  LET d == Decode(b) IN
  IF "err" \in DOMAIN d THEN d.err = "domain" \/ "err" \in DOMAIN o
  ELSE /\ "err" \notin DOMAIN o
       /\ o.files = d.files /\ o.props = d.props /\ o.trailer = d.trailer
       /\ o.inorder = Ordered(d.files) /\ Ordered(o.sorted)
       /\ LET S == {[h |-> d.files[i], d |-> d.data[i]] : i \in 1..Len(d.files)}
          IN \A i \in 1..Len(Case.queries) : FoundOk(S, Case.queries[i], o.found[i])

Init == c \in 1..Len(Cases) /\ k = 0 /\ st = Empty /\ bad = 0
Step ==
  /\ bad = 0 /\ ~Broken(Case.obs) /\ UNCHANGED c
  /\ IF IsRead THEN k = 0 /\ k' = 1 /\ bad' = (IF ReadOk(Case.bytes, Case.obs) THEN 0 ELSE 1) /\ UNCHANGED st
     ELSE /\ k <= Len(Case.ops) /\ k' = k + 1
          /\ IF k < Len(Case.ops)
             THEN /\ st' = After(st, Case.ops[k + 1], Lens)
                  /\ bad' = (IF StepOk(st, Case.ops[k + 1], Case.obs.log[k + 1]) THEN 0 ELSE k + 1)
             ELSE UNCHANGED st /\ bad' = (IF "other" \in DOMAIN Case /\ ~SameEnd THEN k + 1 ELSE 0)
Next == Step
View == <<c, k>>

Over == IF IsRead THEN k = 1 ELSE k > Len(Case.ops)
Judged ==
  IF Broken(Case.obs) THEN PrintT(ToJson([i |-> c, v |-> "bad", exp |-> "an answer"]))
  ELSE IF bad # 0 THEN PrintT(ToJson([i |-> c, v |-> "bad", exp |-> [step |-> bad, state |-> st]]))
  ELSE IF Over THEN PrintT(ToJson([i |-> c, v |-> IF IsRead /\ Decode(Case.bytes) = [err |-> "domain"] THEN "domain" ELSE "ok"]))
  ELSE TRUE
\* one file per name, one property per key
Sound == /\ \A f, g \in st.files : f.h.name = g.h.name => f = g
         /\ \A i, j \in 1..Len(st.props) : st.props[i][1] = st.props[j][1] => i = j
=============================================================================
