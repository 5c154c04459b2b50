----------------------------- MODULE MCPresets -----------------------------
(* Every extends graph over a few presets with contents of a pool: the walk   *)
(* of every preset, step by step, against what it should gather.              *)
EXTENDS Proj, TLC, Json
CONSTANTS Names, Contents
Full == [workshop |-> <<"b", "a">>, mission |-> "m1", dlc |-> <<"ws", "Creator DLC: gm">>, rapify |-> FALSE, parameters |-> <<"-x">>]
Some == [workshop |-> <<"a", "c">>, executable |-> "x.EXE", binarize |-> TRUE, mission |-> "m2", dlc |-> <<"contact", "GM">>, instances |-> 2]
Pool == CASE Contents = 2 -> {Full, Some} [] OTHER -> {Nothing, Full, Some}
Targets == Names \cup {"", "gone"}
Preset(content, e) == IF e = "" THEN content ELSE content @@ [extends |-> e]
VARIABLES presets, w, n
Idle == [of |-> "", got |-> Nothing, seen |-> {}, end |-> "idle"]
Init == presets = Nothing /\ w = Idle /\ n = 0
Choose == /\ presets = Nothing
          /\ \E f \in [Names -> Pool], g \in [Names -> Targets] : presets' = [x \in Names |-> Preset(f[x], g[x])]
          /\ UNCHANGED <<w, n>>
Start == presets # Nothing /\ w = Idle /\ \E x \in Names : w' = Begin(presets, x) /\ UNCHANGED <<presets, n>>
Go == w # Idle /\ w.end = "" /\ w' = Step(presets, w) /\ n' = n + 1 /\ UNCHANGED presets
Next == Choose \/ Start \/ Go

\* the presets a preset rests on, nearest first, until they repeat or end
RECURSIVE Chain(_, _)
Chain(x, seen) == IF x \in Elems(seen) \/ x \notin Names THEN seen
                  ELSE IF "extends" \notin DOMAIN presets[x] THEN Append(seen, x)
                  ELSE Chain(presets[x].extends, Append(seen, x))
\* extends, over and over
Ext == {<<x, y>> \in Names \X (Names \cup {"gone"}) : "extends" \in DOMAIN presets[x] /\ presets[x].extends = y}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {y \in Names \cup {"gone"} : \E x \in S : <<x, y>> \in Ext} IN IF T = S THEN S ELSE Reach(T)
After(x) == Reach({y \in Names \cup {"gone"} : <<x, y>> \in Ext})

Ending == w.end # "" /\ w # Idle =>
  /\ (w.end = "missing") = ("gone" \in After(w.of))
  /\ (w.end = "self") = (\E y \in ({w.of} \cup After(w.of)) \cap Names : y \in After(y))
  /\ w.end = "done" => LET ch == Chain(w.of, <<>>) IN
       /\ \A f \in Singles : LET has == {i \in 1..Len(ch) : f \in DOMAIN presets[ch[i]]} IN
            IF has = {} THEN f \notin DOMAIN w.got
            ELSE w.got[f] = presets[ch[CHOOSE i \in has : \A j \in has : i <= j]][f]
       /\ \A f \in Lists : Elems(Or(w.got, f, <<>>)) = UNION {Elems(Or(presets[ch[i]], f, <<>>)) : i \in 1..Len(ch)}
       /\ LET e == Effective(presets, w.of) IN
            /\ \A f \in Lists \ {"dlc"} : Elems(e[f]) = Elems(Or(w.got, f, <<>>)) /\ Len(e[f]) = Cardinality(Elems(e[f]))
            /\ \A i, j \in 1..Len(e.workshop) : i < j => LessS(e.workshop[i], e.workshop[j])
       \* nothing over it and it over nothing are itself
       /\ Overlaid(presets, <<w.of>>) = Effective(presets, w.of)
\* it ends
Short == n <= Cardinality(Names) /\ Cardinality(w.seen) <= Cardinality(Names)
Emitted == presets # Nothing /\ w = Idle => PrintT(ToJson([presets |-> presets]))
=============================================================================
