------------------------------- MODULE Prefix -------------------------------
(* Prefix files.                                                              *)
EXTENDS Str
PrefixFiles == {"$pboprefix$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$"}

Bad(what) == [ok |-> FALSE, err |-> what]
Named(v) == IF v = "" THEN Bad("empty") ELSE IF At(v, 1) = "\\" THEN Bad("invalid") ELSE [ok |-> TRUE, parts |-> SplitS(v, "\\")]
KeyOf(line) == LowS(TrimS(SubSeq(line, 1, FindFrom(line, "=", 1) - 1)))
ValOf(line) == TrimS(Rest(line, FindFrom(line, "=", 1)))
PrefixOf(text) ==
  LET t == TrimS(text) ls == LinesOf(t)
      given == {i \in 1..Len(ls) : Contains(ls[i], "=") /\ KeyOf(ls[i]) = "prefix"}
  IN IF t = "" THEN Bad("empty")
     ELSE IF Contains(t, "/") THEN Bad("invalid")
     ELSE IF Len(ls) = 1 /\ ~Contains(t, "=") THEN Named(t)
     ELSE IF given = {} THEN Bad("invalid")
     ELSE Named(ValOf(ls[CHOOSE i \in given : \A j \in given : i <= j]))
Shown(p) == JoinS(p.parts, "\\")
=============================================================================
