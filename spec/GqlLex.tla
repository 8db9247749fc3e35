------------------------------- MODULE GqlLex --------------------------------
(***************************************************************************)
(* The lexical grammar: which text is ignored between tokens, where each   *)
(* token ends, and how reading moves the line/column position and the      *)
(* nesting budget.  A reader is a record                                   *)
(*    [i, l, c, b]   next character, its line and column, brackets left    *)
(* and always stands at the first character of a token (or at the end).    *)
(* A token is                                                              *)
(*    [k, t, e]      kind, terminal symbol, index just after the token     *)
(* with kinds  P punctuator, N name, I int, F float, S string, B block     *)
(* string, END end of input, ! lexical error (t tells which).              *)
(***************************************************************************)
EXTENDS GqlText

Limit == 50           \* brackets that may be open at once

Keywords == {"query", "mutation", "subscription", "fragment", "on", "true", "false",
             "null", "schema", "scalar", "type", "interface", "union", "enum",
             "input", "directive", "extend", "implements", "repeatable"}
KeywordText == {S(k) : k \in Keywords}
KeywordOf == [txt \in KeywordText |-> CHOOSE k \in Keywords : S(k) = txt]

-----------------------------------------------------------------------------
(* Ignored text: spaces, commas, tabs, line breaks, BOM, comments.          *)

RECURSIVE CommentEnd(_, _)
\* index of the CR or LF that ends the comment (or Len + 1)
CommentEnd(s, i) == IF i > Len(s) \/ s[i] = LF \/ s[i] = CR THEN i ELSE CommentEnd(s, i + 1)

RECURSIVE Skip(_, _, _, _)
Skip(s, i, l, c) ==
  IF i > Len(s) THEN <<i, l, c>>
  ELSE LET ch == s[i] IN
    IF ch = SPC \/ ch = COMMA THEN Skip(s, i + 1, l, c + 1)
    ELSE IF ch = LF  THEN Skip(s, i + 1, l + 1, 1)
    ELSE IF ch = TAB THEN Skip(s, i + 1, l, c + 8)
    ELSE IF ch = CR \/ ch = BOM THEN Skip(s, i + 1, l, c)
    ELSE IF ch = HASH THEN
      LET e == CommentEnd(s, i + 1) IN
        IF e > Len(s) THEN <<e, l, c>>
        \* a comment's CRLF is one line break; a lone CR ends a comment and the line
        ELSE IF s[e] = CR /\ e < Len(s) /\ s[e + 1] = LF THEN Skip(s, e + 1, l, c)
        ELSE Skip(s, e + 1, l + 1, 1)
    ELSE <<i, l, c>>

-----------------------------------------------------------------------------
(* Token extents                                                            *)

RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ IsNameChar(s[i]) THEN NameEnd(s, i + 1) ELSE i

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

\* A number extends to the next delimiter; whatever is in between must be a number.
RECURSIVE NumberEnd(_, _)
NumberEnd(s, i) == IF i <= Len(s) /\ s[i] \notin NumberEnders THEN NumberEnd(s, i + 1) ELSE i

At(s, i, c) == i <= Len(s) /\ s[i] = c

\* end of the IntegerPart at i, or 0:   -? ( 0 | [1-9] Digit* )
IntPartEnd(s, i) ==
  LET j == IF At(s, i, MINUS) THEN i + 1 ELSE i IN
    IF j > Len(s) \/ ~IsDigit(s[j]) THEN 0
    ELSE IF s[j] = ZERO THEN j + 1 ELSE DigitsEnd(s, j + 1)
\* end of an optional FractionalPart, or 0 if malformed:  . Digit+
FracEnd(s, i) ==
  IF ~At(s, i, DOT) THEN i
  ELSE LET j == DigitsEnd(s, i + 1) IN IF j = i + 1 THEN 0 ELSE j
\* end of an optional ExponentPart, or 0 if malformed:  [eE] [+-]? Digit+
\* (an unsigned exponent does not begin with 0: deviation pinned by a repository test)
ExpEnd(s, i) ==
  IF ~(At(s, i, 101) \/ At(s, i, 69)) THEN i
  ELSE LET signed == At(s, i + 1, PLUS) \/ At(s, i + 1, MINUS)
           j == IF signed THEN i + 2 ELSE i + 1
           e == DigitsEnd(s, j)
       IN IF e = j \/ (~signed /\ s[j] = ZERO) THEN 0 ELSE e

\* "I", "F" or "!" for the number starting at i whose delimiter is at e
NumberKind(s, i, e) ==
  LET p == IntPartEnd(s, i) IN
    IF p = 0 THEN "!"
    ELSE IF p = e THEN "I"
    ELSE LET f == FracEnd(s, p) IN
      IF f = 0 THEN "!"
      ELSE LET x == ExpEnd(s, f) IN IF x # 0 /\ x = e THEN "F" ELSE "!"

\* index after the closing quote of the string whose content starts at i, or 0
RECURSIVE StringEnd(_, _)
StringEnd(s, i) ==
  IF i > Len(s) \/ s[i] = LF THEN 0
  ELSE IF s[i] = QUOTE THEN i + 1
  ELSE IF s[i] = BSL THEN IF At(s, i + 1, LF) \/ i + 1 > Len(s) THEN 0 ELSE StringEnd(s, i + 2)
  ELSE StringEnd(s, i + 1)

Quotes3(s, i) == At(s, i, QUOTE) /\ At(s, i + 1, QUOTE) /\ At(s, i + 2, QUOTE)
\* index after the closing triple quote of the block string whose content starts at i, or 0
RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = BSL /\ Quotes3(s, i + 1) THEN BlockEnd(s, i + 4)
  ELSE IF Quotes3(s, i) THEN i + 3
  ELSE BlockEnd(s, i + 1)

Tok(k, t, e) == [k |-> k, t |-> t, e |-> e]
\* no token: the text from i to before e is at fault
Bad(why, e)  == Tok("!", why, e)

\* the token at position i, with b brackets left
ReadTok(s, i, b) ==
  IF i > Len(s) THEN Tok("END", "END", i)
  ELSE LET ch == s[i] IN
    IF IsNameStart(ch) THEN
      LET e == NameEnd(s, i + 1)
          txt == SubSeq(s, i, e - 1)
      IN Tok("N", IF e - i <= 12 /\ txt \in KeywordText THEN KeywordOf[txt] ELSE "N", e)
    ELSE IF ch \in PunctCodes THEN
      IF ch \in Openers /\ b = 0 THEN Bad("nesting", i + 1) ELSE Tok("P", PunctName[ch], i + 1)
    ELSE IF ch = DOT THEN
      IF At(s, i + 1, DOT) /\ At(s, i + 2, DOT) THEN Tok("P", "...", i + 3) ELSE Bad("dot", i + 1)
    ELSE IF IsDigit(ch) \/ ch = MINUS THEN
      LET e == NumberEnd(s, i + 1)
          k == NumberKind(s, i, e)
      IN IF k = "!" THEN Bad("number", e) ELSE Tok(k, k, e)
    ELSE IF ch = QUOTE THEN
      IF Quotes3(s, i) THEN
        LET e == BlockEnd(s, i + 3) IN IF e = 0 THEN Bad("block string", i + 3) ELSE Tok("B", "B", e)
      ELSE LET e == StringEnd(s, i + 1) IN IF e = 0 THEN Bad("string", i + 1) ELSE Tok("S", "S", e)
    ELSE Bad("character", i + 1)

-----------------------------------------------------------------------------
(* Moving the reader                                                        *)

RECURSIVE LastLF(_, _, _)
\* last line feed in s[from..i], or 0
LastLF(s, from, i) == IF i < from THEN 0 ELSE IF s[i] = LF THEN i ELSE LastLF(s, from, i - 1)
RECURSIVE CountLF(_, _, _)
CountLF(s, from, to) == IF from > to THEN 0
                        ELSE (IF s[from] = LF THEN 1 ELSE 0) + CountLF(s, from + 1, to)

\* the reader after `tok`, which starts at rd, and the ignored text behind it
After(s, rd, tok) ==
  LET lf == IF tok.k = "B" THEN LastLF(s, rd.i, tok.e - 1) ELSE 0
      l2 == IF lf = 0 THEN rd.l ELSE rd.l + CountLF(s, rd.i, tok.e - 1)
      c2 == IF lf = 0 THEN rd.c + (tok.e - rd.i) ELSE tok.e - lf
      p  == Skip(s, tok.e, l2, c2)
  IN [rd EXCEPT !.i = p[1], !.l = p[2], !.c = p[3]]

StartReader(s) == LET p == Skip(s, 1, 1, 1) IN [i |-> p[1], l |-> p[2], c |-> p[3], b |-> Limit]

\* the budget once tok has been looked at
Charge(b, s, i, tok) ==
  IF tok.k # "P" THEN b
  ELSE IF s[i] \in Openers THEN b - 1
  ELSE IF s[i] \in Closers THEN b + 1
  ELSE b

Raw(s, i, tok) == SubSeq(s, i, tok.e - 1)

-----------------------------------------------------------------------------
(* What an error message says.  A line of it is a sequence of parts         *)
(*    <<"", text>>    that text                                             *)
(*    <<"c", <<c>>>>  the character c, quoted                               *)
(*    <<"s", text>>   that text, quoted                                     *)

Says(text)   == <<"", S(text)>>
Char(c)      == <<"c", <<c>>>>
Quoted(text) == <<"s", text>>

\* the line about the malformed lexeme tok with text raw
Malformed(tok, raw) ==
  CASE tok.t = "nesting"      -> <<Says("Recursion limit exceeded")>>
    [] tok.t = "dot"          -> <<Says("Unexpected bare dot "), Char(DOT), Says(" is not supported, only \"...\"")>>
    [] tok.t = "number"       -> <<Says(IF \E j \in 1..Len(raw) : raw[j] \in {DOT, 101, 69} THEN "Unexpected unsupported float "
                                        ELSE "Unexpected unsupported integer "), Quoted(raw)>>
    [] tok.t = "string"       -> <<Says("Unexpected unterminated string value")>>
    [] tok.t = "block string" -> <<Says("Unexpected unterminated block string value")>>
    [] tok.t = "character"    -> <<Says("Unexpected unexpected character "), Char(raw[1])>>
=============================================================================
