-------------------------------- MODULE Sign --------------------------------
(* Signatures. Hashes and signing are symbolic: a hash is the term it was      *)
(* made of, a signed value the key and that term, and only the same key opens  *)
(* it again. An archive is [vers, props: sequence of <<k, v>>, files: sequence *)
(* of [name, data, time]], a key [id, auth, len].                              *)
EXTENDS Pbo

Sqf == {<<98,105,107,98>>, <<99,102,103>>, <<101,120,116>>, <<102,115,109>>, <<104>>, <<104,112,112>>, <<105,110,99>>, <<115,113,102>>,
        <<115,113,102,99>>, <<115,113,109>>, <<115,113,115>>}
Art == {<<102,120,121>>, <<106,112,103>>, <<108,105,112>>, <<111,103,103>>, <<112,51,100>>, <<112,97,97>>, <<112,97,99>>, <<112,110,103>>,
        <<114,116,109>>, <<114,118,109,97,116>>, <<116,103,97>>, <<119,114,112>>, <<119,115,115>>}
RECURSIVE ExtFrom(_, _)
ExtFrom(n, i) == IF i < 2 THEN <<>> ELSE IF n[i] = 46 THEN SubSeq(n, i + 1, Len(n)) ELSE ExtFrom(n, i - 1)
Ext(n) == ExtFrom(n, Len(n))
Covers(v, n) == Ext(n) \in (IF v = 2 THEN Art ELSE Sqf)

PropOf(a, k) == LET i == PropAt(a.props, k) IN IF ~a.vers \/ i = 0 THEN <<>> ELSE <<a.props[i][2]>>
FileLess(f, g) == LessBytes(LowBytes(f.name), LowBytes(g.name))
\* stable: entries equal ignoring case stay as they are
RECURSIVE InsertFile(_, _)
InsertFile(f, s) == IF s = <<>> THEN <<f>> ELSE IF FileLess(f, s[1]) THEN <<f>> \o s ELSE <<s[1]>> \o InsertFile(f, Tail(s))
RECURSIVE SortFiles(_)
SortFiles(s) == IF s = <<>> THEN <<>> ELSE InsertFile(s[Len(s)], SortFiles(SubSeq(s, 1, Len(s) - 1)))
Sorted(a) == \A i \in 1..(Len(a.files) - 1) : ~FileLess(a.files[i + 1], a.files[i])

Canonical(a) == [vers |-> a.vers, props |-> IF a.vers THEN PrefixFirst(a.props) ELSE <<>>, files |-> SortFiles(a.files)]
NamesTerm(a) == LET s == SelectSeq(SortFiles(a.files), LAMBDA f : f.data # <<>>) IN FlatBytes([i \in 1..Len(s) |-> LowBytes(BackBytes(s[i].name))])
DataTerm(a, v) == LET s == SelectSeq(SortFiles(a.files), LAMBDA f : Covers(v, f.name)) IN
                  IF s = <<>> THEN <<-v>> ELSE FlatBytes([i \in 1..Len(s) |-> s[i].data])
PrefixTerm(a) == LET p == PropOf(a, PrefixKey) IN
                 IF p = <<>> THEN <<>> ELSE IF p[1] # <<>> /\ p[1][Len(p[1])] = 92 THEN p[1] ELSE Append(p[1], 92)
Hash1(a) == <<"sum", Canonical(a)>>
Hash2(a) == <<"names", Hash1(a), NamesTerm(a), PrefixTerm(a)>>
Hash3(a, v) == <<"data", DataTerm(a, v), NamesTerm(a), PrefixTerm(a)>>

NoFiles(a) == a.files = <<>>
\* a signed value: who signed it, and what; altered ones open to nothing in particular
Signed(k, h) == [by |-> k.id, of |-> h, hurt |-> FALSE]
SignIt(k, a, v) == [v |-> v, auth |-> k.auth, n |-> k.id, e |-> 65537, s1 |-> Signed(k, Hash1(a)), s2 |-> Signed(k, Hash2(a)), s3 |-> Signed(k, Hash3(a, v))]
Alter(g, how, other) ==
  CASE how = "none" -> g
    [] how = "sig1" -> [g EXCEPT !.s1.hurt = TRUE] [] how = "sig2" -> [g EXCEPT !.s2.hurt = TRUE] [] how = "sig3" -> [g EXCEPT !.s3.hurt = TRUE]
    [] how = "swap12" -> [g EXCEPT !.s1 = g.s2, !.s2 = g.s1] [] how = "swap23" -> [g EXCEPT !.s2 = g.s3, !.s3 = g.s2]
    [] how = "sig2is1" -> [g EXCEPT !.s2 = g.s1] [] how = "sig3is1" -> [g EXCEPT !.s3 = g.s1]
    [] how = "version" -> [g EXCEPT !.v = 5 - @]
    [] how = "auth" -> [g EXCEPT !.auth[1] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]
    [] how = "exponent" -> [g EXCEPT !.e = 65539]
    [] how = "modulus" -> [g EXCEPT !.n = other.id]
Alters == {"none", "sig1", "sig2", "sig3", "swap12", "swap23", "sig2is1", "sig3is1", "version", "auth", "exponent", "modulus"}

Opens(s, k, h) == ~s.hurt /\ s.by = k.id /\ s.of = h
Verify(k, a, g) ==
  /\ g.auth = k.auth /\ g.n = k.id /\ g.e = 65537
  /\ Sorted(a) /\ ~NoFiles(a)
  /\ Opens(g.s1, k, Hash1(a)) /\ Opens(g.s2, k, Hash2(a)) /\ Opens(g.s3, k, Hash3(a, g.v))

----------------------------------------------------------------------------
(* What has to come out, without the mechanism. t: [key, archive, version,    *)
(* alter, with, checked]                                                      *)
Contents(a) == {[n |-> f.name, d |-> f.data] : f \in {a.files[i] : i \in 1..Len(a.files)}}
Filled(a) == {f.name : f \in {g \in {a.files[i] : i \in 1..Len(a.files)} : g.data # <<>>}}
\* the alteration changes nothing or, for the version, nothing that is covered
Harmless(t) ==
  \/ t.alter = "none"
  \/ t.alter = "version" /\ DataTerm(t.archive, 2) = DataTerm(t.archive, 3)
  \/ t.alter = "modulus" /\ t.with = t.key
MustFail(t) ==
  \/ ~Harmless(t)
  \/ t.key # t.with
  \/ ~Sorted(t.checked)
  \/ \E x \in Contents(t.archive) \cup Contents(t.checked) : ~(x \in Contents(t.archive) /\ x \in Contents(t.checked)) /\ x.d # <<>>
  \/ {x.n : x \in Contents(t.archive)} # {x.n : x \in Contents(t.checked)}
  \/ Filled(t.archive) # Filled(t.checked)
  \/ PropOf(t.archive, PrefixKey) # PropOf(t.checked, PrefixKey)
MustPass(t) == /\ t.alter = "none" /\ t.key = t.with /\ t.archive = t.checked
               /\ Sorted(t.checked) /\ ~NoFiles(t.checked)

----------------------------------------------------------------------------
(* The files of keys and signatures. n: bytes of a number.                    *)
Label(kind, len) == IF kind = "private" THEN (len \div 16) * 9 + 20 ELSE len \div 8 + 20
HeadOf(kind, k) == CStr(k.auth) \o U32(Label(kind, k.len)) \o <<IF kind = "private" THEN 7 ELSE 6, 2, 0, 0, 0, 36, 0, 0>>
                   \o <<82, 83, 65, IF kind = "private" THEN 50 ELSE 49>> \o U32(k.len)
SizeOfFile(kind, k) == Len(k.auth) + 1 + 20 + 4 +
  (CASE kind = "private" -> 2 * (k.len \div 8) + 5 * (k.len \div 16) [] kind = "public" -> k.len \div 8 [] kind = "sig" -> 4 * (k.len \div 8) + 16)
ModulusIn(b, k) == SubSeq(b, Len(k.auth) + 26, Len(k.auth) + 25 + (k.len \div 8))
ExponentIn(b, k) == SubSeq(b, Len(k.auth) + 22, Len(k.auth) + 25)
StartsWithBytes(b, h) == Len(b) >= Len(h) /\ SubSeq(b, 1, Len(h)) = h
=============================================================================
