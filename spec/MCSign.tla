------------------------------- MODULE MCSign -------------------------------
(* Every archive of a family of related ones signed with every key, tampered  *)
(* with or replaced, and verified with every key: the mechanism accepts       *)
(* exactly what has to be accepted.                                           *)
EXTENDS Sign, Json

S(b) == b
APaa == <<97, 46, 112, 97, 97>>
BSqf == <<98, 46, 115, 113, 102>>
CTxt == <<99, 46, 116, 120, 116>>
F(n, d) == [name |-> n, data |-> d, time |-> 0]
X == <<120>>
Base == [vers |-> TRUE, props |-> <<<<PrefixKey, X>>>>, files |-> <<F(APaa, <<1>>), F(BSqf, <<2, 3>>), F(CTxt, <<>>)>>]
WithFiles(fs) == [Base EXCEPT !.files = fs]
WithProps(ps) == [Base EXCEPT !.props = ps]
Archives == {
  Base,
  WithFiles(<<F(APaa, <<1>>), F(BSqf, <<2, 4>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<9>>), F(BSqf, <<2, 3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<1, 2>>), F(BSqf, <<3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<2, 3>>), F(BSqf, <<2, 3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(BSqf, <<2, 3>>), F(CTxt, <<7>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(Append(BSqf, 99), <<2, 3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(<<66>> \o Tail(BSqf), <<2, 3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(BSqf, <<2, 3>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(BSqf, <<2, 3>>), F(CTxt, <<>>), F(<<100>>, <<>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(BSqf, <<2, 3>>), F(CTxt, <<>>), F(<<100>>, <<5>>)>>),
  WithFiles(<<F(BSqf, <<2, 3>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(APaa, <<1>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(BSqf, <<2, 3>>), F(APaa, <<1>>), F(CTxt, <<>>)>>),
  WithFiles(<<F(CTxt, <<>>)>>),
  WithFiles(<<>>),
  WithFiles(<<[F(APaa, <<1>>) EXCEPT !.time = 77], F(BSqf, <<2, 3>>), F(CTxt, <<>>)>>),
  WithProps(<<<<PrefixKey, <<121>>>>>>),
  WithProps(<<<<PrefixKey, <<120, 92>>>>>>),
  WithProps(<<<<PrefixKey, <<>>>>>>),
  WithProps(<<>>),
  WithProps(<<<<PrefixKey, X>>, <<<<118>>, <<49>>>>>>),
  WithProps(<<<<<<118>>, <<49>>>>, <<PrefixKey, X>>>>),
  [Base EXCEPT !.vers = FALSE, !.props = <<>>]}
Me == <<109, 101>>
Keys == {[id |-> 1, auth |-> Me, len |-> 512], [id |-> 2, auth |-> Me, len |-> 512], [id |-> 1, auth |-> <<109>>, len |-> 512]}

VARIABLES phase, t, sig, ok
vars == <<phase, t, sig, ok>>
Blank == [key |-> CHOOSE k \in Keys : TRUE, with |-> CHOOSE k \in Keys : TRUE, archive |-> Base, checked |-> Base, version |-> 3, alter |-> "none"]
Init == phase = "start" /\ t = Blank /\ sig = <<>> /\ ok = FALSE
DoSign == phase = "start" /\ \E k \in Keys, a \in Archives, v \in {2, 3} :
            /\ t' = [t EXCEPT !.key = k, !.archive = a, !.checked = a, !.version = v]
            /\ sig' = SignIt(k, a, v) /\ ok' = ok
            /\ phase' = IF NoFiles(a) THEN "refused" ELSE "signed"
\* somebody touches the signature, or another archive takes the place of this one
DoAlter == phase = "signed" /\ \E how \in Alters \ {"none"}, w \in Keys :
             /\ t' = [t EXCEPT !.alter = how, !.with = w] /\ sig' = Alter(sig, how, w) /\ ok' = ok /\ phase' = "sent"
DoReplace == phase = "signed" /\ \E a \in Archives, w \in Keys : t' = [t EXCEPT !.checked = a, !.with = w] /\ UNCHANGED <<sig, ok>> /\ phase' = "sent"
DoVerify == phase = "sent" /\ ok' = Verify(t.with, t.checked, sig) /\ phase' = "done" /\ UNCHANGED <<t, sig>>
Next == DoSign \/ DoAlter \/ DoReplace \/ DoVerify

Never == phase = "done" /\ ok => ~MustFail(t)
Always == phase = "done" /\ MustPass(t) => ok
\* changes of the file times or of other properties are noticed, too
Exactly == phase = "done" /\ ok => Canonical(t.archive) = Canonical(t.checked)
Emitted == /\ phase = "done" => PrintT(ToJson([t |-> t, exp |-> [etc |-> TRUE, verified |-> ok]]))
           /\ phase = "refused" => PrintT(ToJson([t |-> t, exp |-> [unsigned |-> "nofiles"]]))
=============================================================================
