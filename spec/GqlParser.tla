------------------------------- MODULE GqlParser -------------------------------
(***************************************************************************)
(* The parser as a pushdown machine over tokens.  Its stack holds one      *)
(* frame per production being read:                                        *)
(*   n production   j current item   a contributions so far                *)
(*   p position of its first token                                         *)
(*   x elements collected for the current repeated item                    *)
(*   w TRUE after an element of a separated list (a separator may follow)  *)
(* Settle(stk, tok, at) does everything that can be done looking at the    *)
(* next token without consuming it: finish productions, enter the          *)
(* production the token begins, skip optional and end repeated items.      *)
(* It ends in one of                                                       *)
(*   <<"shift", stk>>      the token is what the top frame needs           *)
(*   <<"reject", p, why, lines>>  nothing can continue here                *)
(*   <<"done", node>>      the start production is complete                *)
(***************************************************************************)
EXTENDS GqlAst

Frame(n, p) == [n |-> n, j |-> 1, a |-> <<>>, p |-> p, x |-> <<>>, w |-> FALSE]

Top(stk)     == stk[Len(stk)]
Under(stk)   == SubSeq(stk, 1, Len(stk) - 1)
Replace(stk, f) == [stk EXCEPT ![Len(stk)] = f]

Give(f, v) == [f EXCEPT !.a = Append(@, v), !.j = @ + 1, !.x = <<>>, !.w = FALSE]
Pass(f)    == [f EXCEPT !.j = @ + 1]

\* what is wrong with tok here
Why(tok) == IF tok.k = "!" THEN tok.t ELSE IF tok.k = "END" THEN "end" ELSE "token"

\* v is a finished node; hand it to the frame below
Deliver(f, v) ==
  LET it == Prod[f.n].x[f.j] IN
    CASE it[1] = "n" -> Give(f, v)
      [] it[1] = "o" -> Give(f, <<v>>)
      [] it[1] = "*" \/ it[1] = "+" -> [f EXCEPT !.x = Append(@, v)]
      [] it[1] = "s" -> [f EXCEPT !.x = Append(@, v), !.w = TRUE]

RECURSIVE Settle(_, _, _)
Settle(stk, tok, at) ==
  LET f == Top(stk)
      items == Prod[f.n].x
  IN
  IF f.j > Len(items) THEN
    LET v == Build(f.n, f.a, f.p) IN
      IF v[1] = "bad" THEN <<"reject", f.p, v[2], v[3]>>
      ELSE IF Len(stk) = 1 THEN <<"done", v[2]>>
      ELSE Settle(Replace(Under(stk), Deliver(stk[Len(stk) - 1], v[2])), tok, at)
  ELSE
    LET it == items[f.j]
        reject == <<"reject", at, Why(tok), <<>>>>
        r == IF it[1] \in {"n", "o", "*", "+", "s"} THEN Resolve(it[2], tok) ELSE ""
        enter == Settle(Append(stk, Frame(r, at)), tok, at)
        leave(v) == Settle(Replace(stk, Give(f, v)), tok, at)
    IN
    CASE it[1] = "t" \/ it[1] = "v" -> IF Hits(tok, it[2]) THEN <<"shift", stk>> ELSE reject
      [] it[1] = "e" -> leave(at)
      [] it[1] = "n" -> IF r = "" THEN reject ELSE enter
      [] it[1] = "o" -> IF r = "" THEN leave(<<>>) ELSE enter
      [] it[1] = "*" -> IF r = "" THEN leave(f.x) ELSE enter
      [] it[1] = "+" -> IF r # "" THEN enter ELSE IF f.x = <<>> THEN reject ELSE leave(f.x)
      [] it[1] = "s" -> IF f.w THEN (IF Hits(tok, it[3]) THEN <<"shift", stk>> ELSE leave(f.x))
                        ELSE IF r = "" THEN reject ELSE enter

\* the stack after the top frame has consumed the token with text raw
Consume(stk, raw) ==
  LET f == Top(stk)
      it == Prod[f.n].x[f.j]
  IN Replace(stk, CASE it[1] = "t" -> Pass(f)
                    [] it[1] = "v" -> Give(f, raw)
                    [] it[1] = "s" -> [f EXCEPT !.w = FALSE])

-----------------------------------------------------------------------------
(* Brackets the stack holds open                                            *)

OpenText  == {"(", "[", "{"}
CloseText == {")", "]", "}"}
FrameOpen(f) ==
  LET items == Prod[f.n].x
      before(set) == Cardinality({j \in 1..(f.j - 1) : j <= Len(items) /\ items[j][1] = "t" /\ items[j][2] \in set})
  IN before(OpenText) - before(CloseText)
RECURSIVE OpenBrackets(_, _)
OpenBrackets(stk, i) == IF i > Len(stk) THEN 0 ELSE FrameOpen(stk[i]) + OpenBrackets(stk, i + 1)

-----------------------------------------------------------------------------
(* The same machine run to its end in one step, for use inside formulas     *)

RECURSIVE RunFrom(_, _, _)
RunFrom(s, rd, stk) ==
  LET tok == ReadTok(s, rd.i, rd.b)
      r == Settle(stk, tok, <<rd.l, rd.c>>)
  IN IF r[1] # "shift" THEN <<r, rd, stk>>
     ELSE RunFrom(s, [After(s, rd, tok) EXCEPT !.b = Charge(rd.b, s, rd.i, tok)],
                  Consume(r[2], Raw(s, rd.i, tok)))
\* <<"done", node>> or <<"reject", position, why>>
Run(s, start) ==
  LET rd == StartReader(s) IN RunFrom(s, rd, <<Frame(start, <<rd.l, rd.c>>)>>)[1]

EndOfText == Tok("END", "END", 0)
\* the outcome of the rejection r of the token tok with text raw in front of stk: the place, the reason and
\*   where a whole token is in the way, that token and its kind
\*   otherwise the lines that tell what is wrong, and whether the text before is a document already
Fault(r, tok, raw, stk) ==
  <<"err", r[2], r[3]>> \o
  (IF r[3] = "token" THEN <<raw, tok.k>>
   ELSE IF r[3] = "end" THEN <<>>
   ELSE IF r[4] # <<>> THEN <<r[4], FALSE>>
   ELSE <<<<Malformed(tok, raw)>>, Settle(stk, EndOfText, r[2])[1] = "shift">>)

RECURSIVE TokensFrom(_, _, _)
\* the token texts of s from rd on; ends with <<"!", why>>-like empty text when malformed
TokensFrom(s, rd, out) ==
  LET tok == ReadTok(s, rd.i, rd.b) IN
    IF tok.k = "END" THEN <<"ok", out>>
    ELSE IF tok.k = "!" THEN <<"bad", tok.t>>
    ELSE TokensFrom(s, [After(s, rd, tok) EXCEPT !.b = Charge(rd.b, s, rd.i, tok)],
                    Append(out, [k |-> tok.k, t |-> Raw(s, rd.i, tok)]))
Tokens(s) == TokensFrom(s, StartReader(s), <<>>)

-----------------------------------------------------------------------------
(* Minifying                                                                *)

\* what must stand between a token of kind last ("P" at the start) and tok
Glue(last, tok) ==
  IF last # "P" /\ tok.k # "P" THEN <<SPC>>
  \* a dot would be read as a part of the number before it
  ELSE IF last \in {"I", "F"} /\ tok.t = "..." THEN <<SPC>> ELSE <<>>

RECURSIVE MinifyFrom(_, _, _, _)
MinifyFrom(s, rd, last, out) ==
  LET tok == ReadTok(s, rd.i, rd.b) IN
    IF tok.k = "END" THEN <<"ok", out>>
    ELSE IF tok.k = "!" THEN <<"err", <<rd.l, rd.c>>, tok.t, <<Malformed(tok, Raw(s, rd.i, tok))>>>>
    ELSE MinifyFrom(s, [After(s, rd, tok) EXCEPT !.b = Charge(rd.b, s, rd.i, tok)], tok.k,
                    out \o Glue(last, tok) \o Raw(s, rd.i, tok))
Minified(s) == MinifyFrom(s, StartReader(s), "P", <<>>)
=============================================================================
