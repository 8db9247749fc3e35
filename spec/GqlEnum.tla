------------------------------- MODULE GqlEnum --------------------------------
(***************************************************************************)
(* All short texts over a given alphabet.  A configuration gives the       *)
(* letters (each a piece of text), the text before and after the word, and *)
(* how long words may get.  Every word is one state; on reaching it TLC    *)
(* prints the text and the outcome of each request                         *)
(*   <<"parse", start>>, <<"minify">>                                      *)
(* about it, for the conformance harness.                                  *)
(***************************************************************************)
EXTENDS GqlParser, Json, IOUtils

Confs == ndJsonDeserialize(IOEnv.GQL_ENUM)

VARIABLES conf, word
vars == <<conf, word>>

C == Confs[conf]
RECURSIVE Spell(_, _, _)
Spell(letters, w, i) == IF i > Len(w) THEN <<>> ELSE letters[w[i]] \o Spell(letters, w, i + 1)
TextOf(cf, w) == cf.pre \o Spell(cf.letters, w, 1) \o cf.post

Answer(r, text) ==
  CASE r[1] = "parse" -> LET rd == StartReader(text)
                               y == RunFrom(text, rd, <<Frame(r[2], <<rd.l, rd.c>>)>>)
                               x == y[1]
                               tok == ReadTok(text, y[2].i, y[2].b)
                           IN IF x[1] = "done" THEN <<"ok", x[2]>> ELSE Fault(x, tok, Raw(text, y[2].i, tok), y[3])
    [] r[1] = "minify" -> Minified(text)
Say(k, w) ==
  LET cf == Confs[k]
      text == TextOf(cf, w)
  IN PrintT(ToJson([id |-> k, src |-> text, out |-> [j \in 1..Len(cf.req) |-> Answer(cf.req[j], text)]]))

Init == /\ conf \in 1..Len(Confs)
        /\ word = <<>>
        /\ Confs[conf].min = 0 => Say(conf, word)
Next == /\ Len(word) < C.max
        /\ \E k \in 1..Len(C.letters) : word' = Append(word, k)
        /\ Len(word') >= C.min => Say(conf, word')
        /\ UNCHANGED conf

-----------------------------------------------------------------------------
(* Lexical facts that hold for every text                                   *)

Text == TextOf(C, word)
Toks == Tokens(Text)

\* tokens and ignored text in turn make up the text: nothing is lost, nothing read twice
RECURSIVE Pieces(_, _)
Pieces(s, rd) ==
  LET tok == ReadTok(s, rd.i, rd.b) IN
    IF tok.k \in {"END", "!"} THEN <<>>
    ELSE LET nxt == After(s, rd, tok) IN
           SubSeq(s, rd.i, nxt.i - 1) \o Pieces(s, [nxt EXCEPT !.b = Charge(rd.b, s, rd.i, tok)])
TokensCoverText ==
  Toks[1] = "ok" => SubSeq(Text, 1, StartReader(Text).i - 1) \o Pieces(Text, StartReader(Text)) = Text

\* a token read alone, with a space around it, is that token
TokensStandAlone ==
  Toks[1] = "ok" => \A j \in 1..Len(Toks[2]) :
    LET t == Tokens(<<SPC>> \o Toks[2][j].t \o <<SPC>>) IN
      t = <<"ok", <<Toks[2][j]>>>>

\* minifying keeps the tokens, and minifying again changes nothing
MinifyKeepsTokens ==
  LET m == Minified(Text) IN
    /\ (m[1] = "ok") = (Toks[1] = "ok")
    /\ m[1] = "ok" => Tokens(m[2]) = Toks /\ Minified(m[2]) = m

\* decoding a block string only removes indentation, blank lines and line break styles
NonBlank(s) == SelectSeq(s, LAMBDA c : ~IsBlank(c) /\ c # LF /\ c # CR)
BlockStringsKeepContent ==
  Toks[1] = "ok" => \A j \in 1..Len(Toks[2]) :
    LET t == Toks[2][j] IN t.k = "B" =>
      LET v == BlockValue(t.t) IN
        /\ NonBlank(v) = NonBlank(Unquote3(SubSeq(t.t, 4, Len(t.t) - 3), 1, <<>>))
        /\ Len(v) <= Len(t.t)
        \* (a lone carriage return is content, and would be dropped before a line feed)
        /\ v # <<>> /\ (\A i \in 1..Len(v) : v[i] # CR) => ~BlankLine(Head(Lines(v))) /\ ~BlankLine(Lines(v)[Len(Lines(v))])
=============================================================================
