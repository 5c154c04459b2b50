-------------------------------- MODULE Lex --------------------------------
(* Splitting a source file into tokens, as the preprocessor sees it.          *)
(* A token: k kind, t text it prints as, s text it has in the source,         *)
(* f file, l/n first/last line, o byte offset.                                *)
EXTENDS Sequences, Integers, TLC

Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Foreign2 == {"~"}                  \* stands for a letter of two bytes (see vlib.FOREIGN)
Foreign3 == {"`"}                  \* stands for a sign of three bytes
Letters == Lower \cup Upper \cup Foreign2
WordStart == Letters \cup {"_"}
WordChar == WordStart \cup Digits

Bytes(c) == IF c \in Foreign2 THEN 2 ELSE IF c \in Foreign3 THEN 3 ELSE 1

RECURSIVE ByteLen(_)
ByteLen(s) == IF s = "" THEN 0 ELSE Bytes(Ch(s, 1)) + ByteLen(SubSeq(s, 2, Len(s)))

RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF Ch(s, i) \in WordChar THEN WordEnd(s, i + 1) ELSE i

\* index after the */ that closes a comment whose body starts at i; 0 if none
RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) == IF i + 1 > Len(s) THEN 0
                  ELSE IF Ch(s, i) = "*" /\ Ch(s, i + 1) = "/" THEN i + 2
                  ELSE BlockEnd(s, i + 1)

RECURSIVE CountNl(_)
CountNl(s) == IF s = "" THEN 0 ELSE (IF Ch(s, 1) = "\n" THEN 1 ELSE 0) + CountNl(SubSeq(s, 2, Len(s)))

CharKind(c) ==
  CASE c = "(" -> "lp" [] c = ")" -> "rp" [] c = "," -> "comma" [] c = "\\" -> "esc"
    [] c = "\"" -> "dq" [] c = "'" -> "sq" [] c = "<" -> "la" [] c = ">" -> "ra"
    [] c = "=" -> "eq" [] c = "#" -> "hash" [] c \in {" ", "\t"} -> "ws"
    [] c \in Digits -> "digit" [] c \in WordStart -> "word" [] OTHER -> "uni"

Tok(k, t, s, f, l, n, o) == [k |-> k, t |-> t, s |-> s, f |-> f, l |-> l, n |-> n, o |-> o]

\* x: [i, line, off, inS, inD, skip, toks]
LexStep(s, f, x) ==
  LET i == x.i
      c == Ch(s, i)
      d == Ch(s, i + 1)
      blk == IF c = "/" /\ d = "*" THEN BlockEnd(s, i + 2) ELSE 0
      isNl == c = "\n"
      isCmt == blk > 0 \/ (c = "/" /\ d = "/")
      e == IF isNl THEN i + 1
           ELSE IF blk > 0 THEN blk
           ELSE IF isCmt THEN i + 2
           ELSE IF c \in WordStart THEN WordEnd(s, i + 1)
           ELSE IF c = "#" /\ d = "#" THEN i + 2
           ELSE i + 1
      txt == SubSeq(s, i, e - 1)
      off == x.off + ByteLen(txt)
  IN
  IF isNl THEN
     [x EXCEPT !.i = e, !.line = @ + 1, !.off = off, !.skip = FALSE,
               !.toks = Append(@, Tok("nl", "\n", txt, f, x.line, x.line + 1, x.off))]
  ELSE IF isCmt THEN
     LET line == x.line + CountNl(txt)
         instr == x.inS \/ x.inD
         skip == x.skip \/ (~instr /\ txt = "//")
         kept == IF instr /\ ~x.skip
                 THEN Append(x.toks, Tok("word", txt, txt, f, x.line, line, x.off)) ELSE x.toks
     IN [x EXCEPT !.i = e, !.line = line, !.off = off, !.skip = skip,
                  !.toks = IF skip THEN kept
                           ELSE Append(kept, Tok("cmt", "", txt, f, x.line, line, x.off))]
  ELSE
     LET k == IF c = "#" /\ d = "#" THEN "join" ELSE CharKind(c)
     IN [x EXCEPT !.i = e, !.off = off,
           !.inS = IF k = "sq" /\ ~x.skip /\ ~x.inD THEN ~@ ELSE @,
           !.inD = IF k = "dq" /\ ~x.skip /\ ~x.inS THEN ~@ ELSE @,
           !.toks = IF x.skip THEN @ ELSE Append(@, Tok(k, txt, txt, f, x.line, x.line, x.off))]

RECURSIVE LexFrom(_, _, _)
LexFrom(s, f, x) ==
  IF x.i > Len(s)
  THEN Append(x.toks, Tok("eoi", "", "", f, x.line, x.line, x.off))
  ELSE LexFrom(s, f, LexStep(s, f, x))

\* carriage returns are dropped when a file is read
RECURSIVE NoCr(_, _, _)
NoCr(s, i, acc) ==
  IF i > Len(s) THEN acc ELSE NoCr(s, i + 1, IF Ch(s, i) = "\r" THEN acc ELSE acc \o Ch(s, i))
RECURSIVE HasCr(_, _)
HasCr(s, i) == i <= Len(s) /\ (Ch(s, i) = "\r" \/ HasCr(s, i + 1))

LexFile(s0, f) ==
  LET s == IF HasCr(s0, 1) THEN NoCr(s0, 1, "") ELSE s0 IN
  LexFrom(s, f, [i |-> 1, line |-> 1, off |-> 0, inS |-> FALSE, inD |-> FALSE, skip |-> FALSE, toks |-> <<>>])
=============================================================================
