------------------------------- MODULE Missing -------------------------------
(* Which of the textures and materials that models refer to are not there.    *)
EXTENDS Space
Ref(t) == IF Starts(t, "\\") THEN t ELSE "\\" \o t
There(sp, ptr, p) == Locate(sp, ptr, "", p).is = "found"
\* a texture may be there in the form it is made from, or is made into
Stemmed(p, e) == SubSeq(p, 1, Len(p) - Len(e))
Other(p, q) == CASE Ends(q, ".paa") -> <<Stemmed(p, ".paa") \o ".tga">>
                 [] Ends(q, ".tga") -> <<Stemmed(p, ".tga") \o ".paa">>
                 [] Ends(q, ".png") -> <<Stemmed(p, ".png") \o ".paa">>
                 [] OTHER -> <<>>
Textures(m) == {Ref(m.textures[i]) : i \in {j \in 1..Len(m.textures) : m.textures[j] # "" /\ ~Starts(m.textures[j], "#")}}
Materials(m) == {Ref(m.materials[i]) : i \in {j \in 1..Len(m.materials) : m.materials[j] # ""}}
Forms(p) == {p} \cup {Other(p, q)[1] : q \in {x \in {p, LowS(p)} : Other(p, x) # <<>>}}
Asked(m) == Materials(m) \cup UNION {Forms(p) : p \in Textures(m)}
\* F: those of the paths asked for that are there
NoOther(F, p, q) == LET o == Other(p, q) IN o = <<>> \/ o[1] \notin F
\* (whether the other form counts for an extension in capitals is left open)
LackedTexture(F, p) == p \notin F /\ NoOther(F, p, p)
SurelyLackedTexture(F, p) == LackedTexture(F, p) /\ NoOther(F, p, LowS(p))
Reported(F, m, o) ==
  LET T == {o.textures[i] : i \in 1..Len(o.textures)} M == {o.materials[i] : i \in 1..Len(o.materials)} IN
  /\ {p \in Textures(m) : SurelyLackedTexture(F, p)} \subseteq T
  /\ T \subseteq {p \in Textures(m) : LackedTexture(F, p)}
  /\ M = Materials(m) \ F
Clean(m) == \A p \in Textures(m) \cup Materials(m) : ~Wrong(Swap(p, "\\", "/"))
=============================================================================
