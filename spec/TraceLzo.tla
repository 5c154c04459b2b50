------------------------------- MODULE TraceLzo -------------------------------
(* Recorded compressions and decompressions, judged instruction by            *)
(* instruction. Case.kind "round": data was compressed (obs.comp), and that   *)
(* decompressed (obs.back) with room for it; "decode": a stream was           *)
(* decompressed with room for cap bytes; "room": data was compressed with     *)
(* room for cap bytes.                                                        *)
EXTENDS Lzo, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, s, told
Case == Cases[c]
O == Case.obs
Broken == "panic" \in DOMAIN O \/ "crash" \in DOMAIN O \/ "hang" \in DOMAIN O
\* the stream, the room, what came of it
Refused == Case.kind = "room" /\ "err" \in DOMAIN O.comp
B == IF Case.kind = "decode" THEN Case.stream ELSE O.comp.ok
Cap == IF Case.kind = "decode" THEN Case.cap ELSE Len(Case.data)
Result == IF Case.kind = "decode" THEN O.out ELSE IF Case.kind = "round" THEN O.back ELSE [ok |-> Case.data]
Said == "ok" \in DOMAIN Result
Judgeable == ~Broken /\ ~Refused /\ (Case.kind = "decode" \/ "ok" \in DOMAIN O.comp)
Init == c \in 1..Len(Cases) /\ s = Start /\ told = TRUE
Next == /\ s.res = "run" /\ UNCHANGED c
        /\ IF ~Judgeable THEN s' = [s EXCEPT !.res = "end"] /\ UNCHANGED told
           ELSE LET r == Decode(s, B, Cap) IN
                /\ s' = r.s
                /\ told' = (told /\ (Said /\ r.s.res # "err" => Told(r.ins, B, s.op, Result.ok)))
Done == s.res # "run"
Good == CASE Broken -> FALSE
          [] Refused -> Case.cap < Worst(Len(Case.data))
          [] ~Judgeable -> FALSE
          [] OTHER -> /\ told
                      /\ (s.res = "end") = Said
                      /\ Said => Len(Result.ok) = s.op
                      /\ Case.kind # "decode" => Said /\ Result.ok = Case.data /\ Len(B) <= Worst(Len(Case.data))
                      /\ Case.kind = "round" => O.same
                      /\ Case.kind = "room" => Len(B) <= Case.cap
Judged == Done => PrintT(ToJson([i |-> c, v |-> IF Good THEN "ok" ELSE "bad"]))
=============================================================================
