------------------------------- MODULE GqlText -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points.  This module names the code  *)
(* points and character classes the GraphQL lexical grammar talks about,   *)
(* and gives S("...") so that the rest of the specification can write      *)
(* keywords and punctuation readably.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

TAB == 9     LF == 10     CR == 13     SPC == 32    QUOTE == 34  HASH == 35
COMMA == 44  MINUS == 45  PLUS == 43   DOT == 46    SLASH == 47  ZERO == 48
BSL == 92    UNDER == 95  BOM == 65279

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)}
CodeOf == [ch \in AsciiChars |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch]

\* the code points of an ASCII string, as an explicit tuple
S(str) == <<>> \o [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

IsDigit(c)     == c >= 48 /\ c <= 57
IsNameStart(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = UNDER
IsNameChar(c)  == IsNameStart(c) \/ IsDigit(c)
IsHex(c)       == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c)      == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsBlank(c)     == c = SPC \/ c = TAB          \* white space inside block strings

Openers == {40, 91, 123}    \* ( [ {
Closers == {41, 93, 125}    \* ) ] }
\* single-character punctuators and the terminal symbol each stands for
PunctCodes == Openers \cup Closers \cup {33, 36, 58, 61, 64, 124, 38}
PunctName == [c \in PunctCodes |-> SubSeq(Ascii, c - 31, c - 31)]
\* characters that may directly follow a number
NumberEnders == PunctCodes \cup {SPC, LF, CR, TAB, COMMA, HASH, QUOTE, BOM}

\* lexicographic order on code-point sequences (names are ASCII)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1) ELSE a[i] < b[i]

RECURSIVE JoinBy(_, _, _)
\* pieces[i..] separated by sep
JoinBy(pieces, sep, i) ==
  IF i > Len(pieces) THEN <<>>
  ELSE IF i = Len(pieces) THEN pieces[i]
  ELSE pieces[i] \o sep \o JoinBy(pieces, sep, i + 1)

RECURSIVE Flat(_, _)
Flat(pieces, i) == IF i > Len(pieces) THEN <<>> ELSE pieces[i] \o Flat(pieces, i + 1)

Spaces(n) == <<>> \o [i \in 1..n |-> SPC]
=============================================================================
