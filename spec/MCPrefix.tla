------------------------------ MODULE MCPrefix ------------------------------
(* Every text of a few pieces as a prefix file.                               *)
EXTENDS Prefix, TLC, Json
CONSTANT MaxToks
Toks == {"z", "main", "\\", "/", "=", "prefix", "PreFix", " ", "\n", "\r\n", "x"}
VARIABLES n, text, p
Init == n = 0 /\ text = "" /\ p = PrefixOf("")
Next == n < MaxToks /\ \E t \in Toks : n' = n + 1 /\ text' = text \o t /\ p' = PrefixOf(text \o t)

\* an accepted prefix has a name, no slashes other than its separators, and no blanks around
Sane == p.ok => /\ Shown(p) # "" /\ ~Contains(text, "/") /\ At(Shown(p), 1) # "\\"
                /\ TrimS(Shown(p)) = Shown(p) /\ ~Contains(Shown(p), "\n")
                /\ Contains(text, Shown(p))
                /\ \A i \in 1..Len(p.parts) : ~Contains(p.parts[i], "\\")
\* printed and read again it is the same
Again == p.ok /\ ~Contains(Shown(p), "=") => PrefixOf(Shown(p)) = p
\* bare or with the key, with blanks around or further lines
Forms == p.ok /\ ~Contains(text, "=") => /\ PrefixOf("prefix=" \o TrimS(text)) = p
                                         /\ PrefixOf(" \t" \o text \o "\r\n ") = p
                                         /\ PrefixOf("other=1\nPREFIX = " \o TrimS(text) \o "\nx=y\n") = p
\* a file that names no prefix is refused
None == (\A i \in 1..Len(LinesOf(TrimS(text))) : LET l == LinesOf(TrimS(text))[i] IN Contains(l, "=") /\ (KeyOf(l) # "prefix" \/ ValOf(l) = "")) => ~p.ok
Emitted == PrintT(ToJson([text |-> text, exp |-> IF p.ok THEN [parts |-> p.parts, shown |-> Shown(p)] ELSE [err |-> p.err]]))
=============================================================================
