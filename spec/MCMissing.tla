------------------------------ MODULE MCMissing ------------------------------
(* Two models checked at the same time, one reference after the other, with   *)
(* what was found out about a path kept for both: whatever the order of the   *)
(* steps, each is told what it lacks, and what is kept is true.               *)
EXTENDS Missing, Json
CONSTANTS Wide
VARIABLES sp, ptr, models, there, cache, todo, ask, got, began
Files == {"/addons/m/a.paa", "/addons/m/b.tga", "/addons/m/c.rvmat"}
TexturePool == {"x\\m\\a.paa", "\\x\\m\\a.tga", "x\\m\\a.png", "X\\m\\b.paa", "x\\m\\c.rvmat", "#(argb,1)", ""} \cup (IF Wide THEN {"x\\m\\b.tga", "x\\m\\A.paa", "a.paa"} ELSE {})
MaterialPool == {"\\x\\m\\c.rvmat", "x\\m\\a.tga", "x\\m\\a.paa"}
Prefix == [p \in {"/addons/m/$PBOPREFIX$"} |-> "x\\m"]
Nowhere == [disk |-> EmptyFn, dirs |-> {}, mem |-> <<>>, layers |-> <<>>]
Candidate == UNION {Asked(models[i]) : i \in 1..2}
\* the references of a model, in some order: textures first
RECURSIVE AsList(_)
AsList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : z = y \/ LessS(y, z) IN <<x>> \o AsList(S \ {x})
Refs(m) == LET t == AsList(Textures(m)) a == AsList(Materials(m)) IN [i \in 1..Len(t) |-> <<"texture", t[i]>>] \o [i \in 1..Len(a) |-> <<"material", a[i]>>]
Start == <<"">>
Init == /\ sp = Nowhere /\ ptr = EmptyFn /\ models = <<>> /\ there = {} /\ cache = EmptyFn /\ began = FALSE
        /\ todo = [w \in 1..2 |-> <<>>] /\ ask = [w \in 1..2 |-> Start] /\ got = [w \in 1..2 |-> {}]
Choose == /\ sp = Nowhere
          /\ \E F \in SUBSET Files, t1, t2, t3 \in TexturePool, m1, m2 \in {""} \cup MaterialPool :
               /\ (~Wide => m2 \in {"", m1} /\ t2 \in {"", "x\\m\\a.png"})
               /\ sp' = [layers |-> <<[is |-> "disk", at |-> "", type |-> "source"]>>, disk |-> Prefix @@ [f \in F |-> f], dirs |-> {}, mem |-> <<EmptyFn>>]
               /\ models' = <<[textures |-> <<t1, t2>>, materials |-> <<m1>>], [textures |-> <<t3>>, materials |-> <<m2>>]>>
          /\ ptr' = Pointers(sp') /\ UNCHANGED <<there, cache, todo, ask, got, began>>
Begin == /\ sp # Nowhere /\ ~began /\ began' = TRUE
         /\ there' = {p \in Candidate : There(sp, ptr, p)}
         /\ todo' = [w \in 1..2 |-> Refs(models[w])] /\ UNCHANGED <<sp, ptr, models, cache, ask, got>>
\* what is asked: the reference, then its other form
Question(w) == IF ask[w] = Start THEN todo[w][1][2] ELSE ask[w][1]
Missed(w) == LET r == todo[w][1] IN got' = [got EXCEPT ![w] = @ \cup {r}]
Answer(w, yes) ==
  LET r == todo[w][1] first == Question(w) = r[2] IN
  IF yes \/ r[1] = "material" \/ Other(r[2], r[2]) = <<>> \/ ~first
  THEN /\ todo' = [todo EXCEPT ![w] = Tail(@)] /\ ask' = [ask EXCEPT ![w] = Start]
       /\ (IF yes THEN UNCHANGED got ELSE Missed(w))
  ELSE ask' = [ask EXCEPT ![w] = Other(r[2], r[2])] /\ UNCHANGED <<todo, got>>
Look(w) == began /\ todo[w] # <<>> /\ Len(ask[w]) = 1 /\
           IF Question(w) \in DOMAIN cache THEN Answer(w, cache[Question(w)]) /\ UNCHANGED <<sp, ptr, models, there, cache, began>>
           ELSE ask' = [ask EXCEPT ![w] = <<Question(w), "locate">>] /\ UNCHANGED <<sp, ptr, models, there, cache, todo, got, began>>
Keep(w) == began /\ Len(ask[w]) = 2 /\ cache' = [p \in DOMAIN cache \cup {Question(w)} |-> IF p = Question(w) THEN p \in there ELSE cache[p]]
           /\ Answer(w, Question(w) \in there) /\ UNCHANGED <<sp, ptr, models, there, began>>
Next == Choose \/ Begin \/ \E w \in 1..2 : Look(w) \/ Keep(w)
CacheTrue == \A p \in DOMAIN cache : cache[p] = (p \in there)
Done == began /\ \A w \in 1..2 : todo[w] = <<>>
Right == Done => \A w \in 1..2 :
   Reported({p \in Candidate : There(sp, ptr, p)}, models[w], [textures |-> AsList({r[2] : r \in {x \in got[w] : x[1] = "texture"}}), materials |-> AsList({r[2] : r \in {x \in got[w] : x[1] = "material"}})])
\* nothing is asked for ever
Ends0 == began => Len(todo[1]) + Len(todo[2]) <= 6
Out == sp # Nowhere /\ ~began => PrintT(ToJson([disk |-> sp.disk, dirs |-> AsList(sp.dirs), layers |-> sp.layers, models |-> models]))
=============================================================================
