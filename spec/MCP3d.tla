-------------------------------- MODULE MCP3d --------------------------------
(* Models put together element by element: what is written reads back, no     *)
(* file that is cut short does, and nothing else reads as the same model      *)
(* unless it differs in bytes that carry nothing.                             *)
EXTENDS P3d, TLC, Json
CONSTANTS MaxParts, Wide
VARIABLES m, parts, done
A == <<97>>
E2 == <<195, 169, 92>>
Names == {<<>>, A, E2} \cup (IF Wide THEN {EndName} ELSE {})
B(n, k) == [i \in 1..n |-> (i * 7 + k * 31) % 256]
Lod0 == [major |-> U32(28), minor |-> U32(256), res |-> <<0, 0, 128, 63>>, points |-> <<>>, normals |-> <<>>, faces |-> <<>>, tags |-> <<>>]
Init == m = [version |-> U32(257), lods |-> <<>>] /\ parts = 0 /\ done = FALSE
L == Len(m.lods)
Last == m.lods[L]
Put(l) == m' = [m EXCEPT !.lods[L] = l]
NewLod == \E r \in {0, 255} : m' = [m EXCEPT !.lods = Append(@, [Lod0 EXCEPT !.res = <<r, r, 127, r>>])]
Point == L > 0 /\ Len(Last.points) < 2 /\ Put([Last EXCEPT !.points = Append(@, [at |-> B(12, L), flags |-> B(4, parts)])])
Normal == L > 0 /\ Len(Last.normals) < 2 /\ Put([Last EXCEPT !.normals = Append(@, B(12, parts))])
NewFace == L > 0 /\ \E n \in {3, 4}, t \in Names, a \in {<<>>, A} :
             Put([Last EXCEPT !.faces = Append(@, [verts |-> [i \in 1..n |-> B(16, i + parts)], flags |-> B(4, n), texture |-> t, material |-> a])])
NewTag == L > 0 /\ \E n \in Names \ {EndName}, k \in {0, 3} : Put([Last EXCEPT !.tags = Append(@, [name |-> n, data |-> B(k, parts)])])
Next == ~done /\ \/ parts < MaxParts /\ (NewLod \/ Point \/ Normal \/ NewFace \/ NewTag) /\ parts' = parts + 1 /\ UNCHANGED done
                 \/ done' = TRUE /\ UNCHANGED <<m, parts>>
F == Bytes(m)
Back == done => LET r == Read(F) IN r.ok /\ r.v = m /\ r.at = Len(F) + 1 /\ Sayable(m) /\ Writable(m)
Cut == done => \A n \in 0..Len(F) - 1 : ~Read(SubSeq(F, 1, n)).ok
\* one byte changed: another model, none, or the same, then it carries nothing
Changed == done /\ parts <= 2 => \A i \in 1..Len(F) : LET g == [F EXCEPT ![i] = (@ + 1) % 256] r == Read(g) IN
              r.ok /\ r.v = m => Bytes(r.v) = F /\ g # F
\* ...and those are, per level of detail, four in the head, one per tag and the end, the padding of triangles
Idle(l) == 4 + Len(l.tags) + 1 + 16 * Len(SelectSeq(l.faces, LAMBDA x : Len(x.verts) = 3))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Carries == done /\ parts <= 3 => Sum([i \in 1..L |-> Idle(m.lods[i])])
   = Sum([i \in 1..Len(F) |-> LET r == Read([F EXCEPT ![i] = (@ + 1) % 256]) IN IF r.ok /\ r.v = m THEN 1 ELSE 0])
Out == done => PrintT(ToJson([model |-> m, file |-> F]))
=============================================================================
