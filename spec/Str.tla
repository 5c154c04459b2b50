-------------------------------- MODULE Str --------------------------------
(* Strings as the code handles them.                                         *)
EXTENDS Sequences, Integers

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperC == {At(UpperS, i) : i \in 1..26}
LowOf == [c \in UpperC |-> At(LowerS, CHOOSE i \in 1..26 : At(UpperS, i) = c)]
LowC(c) == IF c \in UpperC THEN LowOf[c] ELSE c
RECURSIVE LowS(_)
LowS(s) == IF s = "" THEN "" ELSE LowC(At(s, 1)) \o LowS(SubSeq(s, 2, Len(s)))

\* every a replaced by b; b may be ""
RECURSIVE Swap(_, _, _)
Swap(s, a, b) == IF s = "" THEN "" ELSE (IF At(s, 1) = a THEN b ELSE At(s, 1)) \o Swap(SubSeq(s, 2, Len(s)), a, b)

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Rest(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE FindFrom(_, _, _)
\* first place of p in s from i on; 0 if none
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
Contains(s, p) == FindFrom(s, p, 1) > 0

RECURSIVE SplitS(_, _)
SplitS(s, c) == LET i == FindFrom(s, c, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitS(Rest(s, i), c)
RECURSIVE JoinS(_, _)
JoinS(ss, c) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o c \o JoinS(Tail(ss), c)

Blank == {" ", "\t", "\n", "\r"}
RECURSIVE TrimLS(_)
TrimLS(s) == IF s # "" /\ At(s, 1) \in Blank THEN TrimLS(Rest(s, 1)) ELSE s
RECURSIVE TrimRS(_)
TrimRS(s) == IF s # "" /\ At(s, Len(s)) \in Blank THEN TrimRS(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimS(s) == TrimRS(TrimLS(s))

\* the lines of a text: a last line that is empty is none, a carriage return belongs to the end of line
LinesOf(s) == LET ss == SplitS(s, "\n")
                  tt == IF ss[Len(ss)] = "" THEN SubSeq(ss, 1, Len(ss) - 1) ELSE ss
              IN [i \in 1..Len(tt) |-> IF Ends(tt[i], "\r") /\ (i < Len(ss)) THEN SubSeq(tt[i], 1, Len(tt[i]) - 1) ELSE tt[i]]

DigitC == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in DigitC |-> CHOOSE i \in 0..9 : At("0123456789", i + 1) = c]
AllDigits(s) == \A i \in 1..Len(s) : At(s, i) \in DigitC
RECURSIVE NumOf(_)
NumOf(s) == IF s = "" THEN 0 ELSE NumOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal[At(s, Len(s))]

\* an order of characters: control < space < ... as in ASCII
Ascii == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTable == [c \in {At(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : At(Ascii, i) = c]
\* "~" and "`" stand for signs after all of ASCII (see vlib.FOREIGN)
OrdC(c) == IF c = "~" THEN 500 ELSE IF c = "`" THEN 600 ELSE CodeTable[c]
RECURSIVE LessS(_, _)
LessS(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
               ELSE IF At(a, 1) # At(b, 1) THEN OrdC(At(a, 1)) < OrdC(At(b, 1)) ELSE LessS(Rest(a, 1), Rest(b, 1))
=============================================================================
