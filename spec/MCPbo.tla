------------------------------- MODULE MCPbo -------------------------------
(* Every history of a few operations on an archive: what its content is by    *)
(* definition (whatever was last put under a name), that the bytes written    *)
(* hold exactly that, and that nothing shorter or longer is an archive.       *)
EXTENDS Pbo, Json

CONSTANTS MaxOps, Slow      \* histories of up to Slow operations are also cut at every byte
VARIABLES ops, st, log
vars == <<ops, st, log>>

A == <<97>>                       \* a
Bc == <<66, 47, 99>>              \* B/c
BcB == <<66, 92, 99>>             \* B\c
B0 == <<66, 45>>                  \* B-, sorts before B\
Key == <<118>>
Datas == {<<>>, <<1, 0>>}
Pool == [op : {"add"}, name : {A, Bc, BcB, B0}, data : Datas]
  \cup [op : {"addh"}, name : {A, BcB}, data : {<<7>>}, mime : {1131442803}, original : {300}, reserved : {5}, timestamp : {65536}]
  \cup [op : {"prop"}, k : {PrefixKey, Key}, v : {<<>>, <<92, 120, 92, 121, 92, 92>>, <<122>>}]
  \cup [op : {"unprop"}, k : {PrefixKey, Key}]
  \cup {[op |-> "write", props |-> TRUE], [op |-> "get", name |-> Bc]}
Queries == <<A, <<65>>, BcB, <<98, 47, 67>>, <<66>>, <<66, 45>>>>

With(p) == [op |-> "write", props |-> p]
Sum == "$sum"
FoundFor(s, q) == LET F == Answers(s.files, q) IN
  IF F = {} THEN [found |-> FALSE, located |-> FALSE]
  ELSE [etc |-> TRUE, found |-> TRUE, located |-> TRUE, data |-> The(F).d, at |-> The(F).d]
Written(s, p, tag) ==
  LET fs == InOrder(s.files) ps == PrefixFirst(s.props) l == Layout(fs, ps, p) IN
  [etc |-> TRUE, len |-> Len(l) + 21, gap |-> 0, ret |-> tag, sha |-> tag, tail |-> tag, body |-> l,
   read |-> [etc |-> TRUE, stored |-> tag, regen |-> tag, inorder |-> TRUE, files |-> [i \in 1..Len(fs) |-> fs[i].h],
             props |-> IF p THEN ps ELSE <<>>, found |-> [i \in 1..Len(Queries) |-> FoundFor(s, Queries[i])]]]
Reply(s, op) ==
  CASE op.op = "write" -> Written(s, op.props, "$" \o ToString(Len(ops)))
    [] op.op = "get" -> (IF Exact(s.files, op.name) = {} THEN [x \in {} |-> 0] ELSE [data |-> The(Exact(s.files, op.name)).d])
    [] OTHER -> Answer(s, op, <<>>)

Init == ops = <<>> /\ st = Empty /\ log = <<>>
\* a write or a look changes nothing: only kept before something else
Next == \E op \in Pool :
  /\ Len(ops) < MaxOps
  /\ ops' = Append(ops, op) /\ st' = After(st, op, <<>>) /\ log' = Append(log, Reply(st, op))

----------------------------------------------------------------------------
\* the content by definition
Adds(n) == {i \in 1..Len(ops) : ops[i].op \in {"add", "addh"} /\ BackBytes(ops[i].name) = n}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
NamesEver == {BackBytes(ops[i].name) : i \in {i \in 1..Len(ops) : ops[i].op \in {"add", "addh"}}}
KeysEver == {ops[i].k : i \in {i \in 1..Len(ops) : ops[i].op \in {"prop", "unprop"}}}
Sets(k) == {i \in 1..Len(ops) : ops[i].op \in {"prop", "unprop"} /\ ops[i].k = k}
Content == /\ {[n |-> f.h.name, d |-> f.d, s |-> f.h.size] : f \in st.files}
                = {LET o == ops[LastOf(Adds(n))] IN [n |-> n, d |-> o.data, s |-> Len(o.data)] : n \in NamesEver}
           /\ Cardinality(st.files) = Cardinality(NamesEver)
           /\ {st.props[i] : i \in 1..Len(st.props)}
                = {<<k, Trim(ops[LastOf(Sets(k))].v, 92)>> : k \in {k \in KeysEver : ops[LastOf(Sets(k))].op = "prop"}}
           /\ Len(st.props) = Cardinality({st.props[i][1] : i \in 1..Len(st.props)})

Whole(p) == Layout(InOrder(st.files), PrefixFirst(st.props), p) \o <<0>> \o [i \in 1..20 |-> i]
\* reading gives back what was put in
ReadsBack == \A p \in BOOLEAN :
  LET d == Decode(Whole(p)) IN
  /\ "err" \notin DOMAIN d
  /\ {[h |-> d.files[i], d |-> d.data[i]] : i \in 1..Len(d.files)} = st.files /\ Len(d.files) = Cardinality(st.files)
  /\ d.trailer = [i \in 1..20 |-> i]
  /\ d.props = (IF p THEN PrefixFirst(st.props) ELSE <<>>)
  /\ \A i \in 1..(Len(d.files) - 1) : LessBytes(LowBytes(d.files[i].name), LowBytes(d.files[i + 1].name))
\* nothing shorter or longer is an archive
Cut == Len(ops) <= Slow => \A p \in BOOLEAN :
  LET w == Whole(p) IN
  /\ \A n \in 0..(Len(w) - 1) : Decode(SubSeq(w, 1, n)) = [err |-> "rejected"]
  /\ Decode(w \o <<0>>) = [err |-> "rejected"]
Size == \A p \in BOOLEAN : LayoutLen(InOrder(st.files), PrefixFirst(st.props), p, <<>>) + 21 = Len(Whole(p))

Emitted == ops # <<>> => PrintT(ToJson(
  [ops |-> ops \o <<With(TRUE), With(FALSE), With(TRUE)>>, queries |-> Queries,
   exp |-> [log |-> log \o <<Written(st, TRUE, "$t"), Written(st, FALSE, "$f"), Written(st, TRUE, "$t")>>, other |-> <<>>]]))
=============================================================================
