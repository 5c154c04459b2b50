-------------------------------- MODULE Pbo --------------------------------
(* Archives. A writable archive is its files (one per name, with backslashes) *)
(* and its properties (one per key, in an order of their own); operations     *)
(* change it and answer something; writing lays it out as bytes. Reading is a *)
(* cursor over bytes. Names, keys and values are byte strings.                *)
EXTENDS Bytes, FiniteSets, TLC

Vers == 1449489011
Mimes == {<<Vers, "Vers">>, <<1131442803, "Cprs">>, <<1164862322, "Enco">>, <<0, "Blank">>}
MimeName(n) == IF \E m \in Mimes : m[1] = n THEN (CHOOSE m \in Mimes : m[1] = n)[2] ELSE "none"
MimeCode(s) == (CHOOSE m \in Mimes : m[2] = s)[1]

Header(name, mime, original, reserved, timestamp, size) ==
  [name |-> name, mime |-> mime, original |-> original, reserved |-> reserved, timestamp |-> timestamp, size |-> size]
HeaderBytes(h) == CStr(h.name) \o U32(MimeCode(h.mime)) \o U32(h.original) \o U32(h.reserved) \o U32(h.timestamp) \o U32(h.size)
EndHeader == Header(<<>>, "Blank", 0, 0, 0, 0)
PrefixKey == <<112, 114, 101, 102, 105, 120>>

----------------------------------------------------------------------------
(* The writable archive: [files: set of [h, d], props: sequence of <<k, v>>] *)
Empty == [files |-> {}, props |-> <<>>]
Named(st, n) == {f \in st.files : f.h.name = n}
The(S) == CHOOSE x \in S : TRUE
Known(v) == v \o <<>>
PropAt(ps, k) == IF \E i \in 1..Len(ps) : ps[i][1] = k THEN CHOOSE i \in 1..Len(ps) : ps[i][1] = k ELSE 0

\* lens: sizes of numbered contents; <<>> if contents are the bytes themselves
SizeOf(d, lens) == IF lens = <<>> THEN Len(d) ELSE lens[d[1]]

Put(st, f) ==
  LET old == Named(st, f.h.name) IN
  [st |-> [st EXCEPT !.files = (@ \ old) \cup {f}],
   r |-> IF old = {} THEN [x \in {} |-> 0] ELSE [old |-> The(old).d, hdr |-> The(old).h]]

DoAdd(st, op, lens) ==
  LET n == SizeOf(op.data, lens) IN
  Put(st, [h |-> Header(BackBytes(op.name), "Blank", n, 0, 0, n), d |-> op.data])
DoAddH(st, op, lens) ==
  Put(st, [h |-> Header(BackBytes(op.name), MimeName(op.mime), op.original, op.reserved, op.timestamp, SizeOf(op.data, lens)), d |-> op.data])
DoProp(st, op) ==
  LET i == PropAt(st.props, op.k) v == Trim(op.v, 92) IN
  IF i = 0 THEN [st |-> [st EXCEPT !.props = Append(@, <<op.k, v>>)], r |-> [x \in {} |-> 0]]
  ELSE [st |-> [st EXCEPT !.props[i] = <<op.k, v>>], r |-> [old |-> st.props[i][2]]]
DoUnprop(st, op) ==
  LET ps == st.props i == PropAt(ps, op.k) IN
  IF i = 0 THEN [st |-> st, r |-> [x \in {} |-> 0]]
  ELSE [st |-> [st EXCEPT !.props = SubSeq(ps, 1, i - 1) \o (IF i = Len(ps) THEN <<>> ELSE <<ps[Len(ps)]>>) \o SubSeq(ps, i + 1, Len(ps) - 1)],
        r |-> [old |-> ps[i][2]]]

\* state after an operation
After(st, op, lens) ==
  CASE op.op = "add" -> DoAdd(st, op, lens).st [] op.op = "addh" -> DoAddH(st, op, lens).st
    [] op.op = "prop" -> DoProp(st, op).st [] op.op = "unprop" -> DoUnprop(st, op).st [] OTHER -> st
Answer(st, op, lens) ==
  CASE op.op = "add" -> DoAdd(st, op, lens).r [] op.op = "addh" -> DoAddH(st, op, lens).r
    [] op.op = "prop" -> DoProp(st, op).r [] op.op = "unprop" -> DoUnprop(st, op).r

----------------------------------------------------------------------------
(* Writing                                                                    *)
\* files in the order they are written: ignoring case, otherwise equal ones by name
Before(a, b) == LET x == LowBytes(a.h.name) y == LowBytes(b.h.name) IN
                IF x # y THEN LessBytes(x, y) ELSE LessBytes(a.h.name, b.h.name)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET f == CHOOSE f \in S : \A g \in S \ {f} : Before(f, g) IN <<f>> \o InOrder(S \ {f})
PrefixFirst(ps) == SelectSeq(ps, LAMBDA p : p[1] = PrefixKey) \o SelectSeq(ps, LAMBDA p : p[1] # PrefixKey)

\* the bytes the checksum covers
Layout(fs, ps, with) ==
  (IF with THEN HeaderBytes(Header(<<>>, "Vers", 0, 0, 0, 0)) \o FlatBytes([i \in 1..Len(ps) |-> CStr(ps[i][1]) \o CStr(ps[i][2])]) \o <<0>> ELSE <<>>)
  \o FlatBytes([i \in 1..Len(fs) |-> HeaderBytes(fs[i].h)]) \o HeaderBytes(EndHeader)
  \o FlatBytes([i \in 1..Len(fs) |-> fs[i].d])
LayoutLen(fs, ps, with, lens) ==
  LET RECURSIVE Sum(_, _) Sum(i, acc) == IF i > Len(fs) THEN acc ELSE Sum(i + 1, acc + Len(fs[i].h.name) + 21 + SizeOf(fs[i].d, lens))
      RECURSIVE SumP(_, _) SumP(i, acc) == IF i > Len(ps) THEN acc ELSE SumP(i + 1, acc + Len(ps[i][1]) + Len(ps[i][2]) + 2)
  IN (IF with THEN 22 + SumP(1, 0) ELSE 0) + 21 + Sum(1, 0)

----------------------------------------------------------------------------
(* Reading: x = [i, files, props, vers, ph, err]. Phases: "hdr" a header is   *)
(* next, "key" a property, "end" the list of files is complete.               *)
ReadStart == [i |-> 1, files |-> <<>>, props |-> <<>>, ph |-> "hdr", err |-> ""]
Reject(x) == [x EXCEPT !.err = "rejected", !.ph = "end"]
SetProp(ps, k, v) == LET i == PropAt(ps, k) IN IF i = 0 THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![i] = <<k, v>>]
ReadStep(b, x) ==
  LET z == ZeroAt(b, x.i) IN
  IF z = 0 THEN Reject(x)
  ELSE LET s == SubSeq(b, x.i, z - 1) IN
  IF ~AllAscii(s) THEN [x EXCEPT !.err = "domain", !.ph = "end"]
  ELSE IF x.ph = "key" THEN
    IF s = <<>> THEN [x EXCEPT !.i = z + 1, !.ph = "hdr"]
    ELSE LET y == ZeroAt(b, z + 1) IN
         IF y = 0 THEN Reject(x)
         ELSE IF ~AllAscii(SubSeq(b, z + 1, y - 1)) THEN [x EXCEPT !.err = "domain", !.ph = "end"]
         ELSE [x EXCEPT !.i = y + 1, !.props = SetProp(@, s, SubSeq(b, z + 1, y - 1))]
  ELSE IF z + 20 > Len(b) THEN Reject(x)
  ELSE LET m == MimeName(Num32(b, z + 1))
           h == Header(s, m, Num32(b, z + 5), Num32(b, z + 9), Num32(b, z + 13), Num32(b, z + 17)) IN
    IF m = "none" THEN Reject(x)
    ELSE IF m = "Vers" THEN [x EXCEPT !.i = z + 21, !.ph = "key"]
    ELSE IF s = <<>> THEN [x EXCEPT !.i = z + 21, !.ph = "end"]
    ELSE IF h.size = -1 THEN Reject(x)     \* larger than anything there is
    ELSE IF -1 \in {h.original, h.reserved, h.timestamp} THEN [x EXCEPT !.err = "domain", !.ph = "end"]
    ELSE [x EXCEPT !.i = z + 21, !.files = Append(@, h)]
RECURSIVE ReadAll(_, _)
ReadAll(b, x) == IF x.ph = "end" THEN x ELSE ReadAll(b, ReadStep(b, x))

RECURSIVE Sizes(_, _)
Sizes(hs, n) == IF n = 0 THEN 0 ELSE hs[n].size + Sizes(hs, n - 1)
RECURSIVE TooBig(_, _, _)
TooBig(hs, n, room) == IF n = 0 THEN FALSE ELSE hs[n].size > room \/ TooBig(hs, n - 1, room - hs[n].size)

\* what an archive of the bytes b contains; err "rejected" if it is none
Decode(b) ==
  LET x == ReadAll(b, ReadStart) IN
  IF x.err # "" THEN [err |-> x.err]
  ELSE IF TooBig(x.files, Len(x.files), Len(b)) \/ x.i - 1 + Sizes(x.files, Len(x.files)) + 21 # Len(b) THEN [err |-> "rejected"]
  ELSE [files |-> x.files, props |-> x.props, trailer |-> SubSeq(b, Len(b) - 19, Len(b)),
        data |-> [k \in 1..Len(x.files) |-> SubSeq(b, x.i + Sizes(x.files, k - 1), x.i + Sizes(x.files, k) - 1)]]

----------------------------------------------------------------------------
(* Finding a file: the name itself, or one that differs only in case          *)
SameName(a, b) == LowBytes(BackBytes(a)) = LowBytes(BackBytes(b))
Exact(S, q) == {f \in S : BackBytes(f.h.name) = BackBytes(q)}
Loose(S, q) == {f \in S : SameName(f.h.name, q)}
Answers(S, q) == IF Exact(S, q) # {} THEN Exact(S, q) ELSE Loose(S, q)
=============================================================================
