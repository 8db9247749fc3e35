-------------------------------- MODULE GqlTour --------------------------------
(***************************************************************************)
(* The parser in open mode: instead of reading a given text it is offered, *)
(* in every configuration, every kind of token.  TLC visits each parser    *)
(* configuration within the bounds once (VIEW), and for each configuration *)
(* and each token prints a test: the text typed so far, that token, and -  *)
(* when the token is acceptable - a shortest completion, together with the *)
(* outcome.  This is a transition tour of the whole grammar.               *)
(***************************************************************************)
EXTENDS GqlParser, Json, IOUtils

Start    == IOEnv.GQL_START                    \* QDoc or SDoc
MaxOpen  == atoi(IOEnv.GQL_OPEN)               \* brackets open at once
MaxDepth == atoi(IOEnv.GQL_DEPTH)              \* stack height

Fine     == IOEnv.GQL_FINE = "yes"             \* also tell apart which optional parts were present

VARIABLES stk, txt
vars == <<stk, txt>>

\* malformed lexemes, and literals without a value
Errors == {"?character", "?dot", "?number", "?float", "?string", "?block string"}
Senseless == {"?I", "?F", "?S"}
Terminals == {"!", "$", "(", ")", ":", "=", "@", "[", "]", "{", "}", "|", "&", "...",
              "N", "I", "F", "S", "B", "L", "END"} \cup Keywords \cup Errors \cup Senseless
\* "END" is the end of input, "L" a directive location
TokenFor(t) ==
  CASE t = "END" -> [k |-> "END", t |-> "END", e |-> 0]
    [] t \in Keywords -> [k |-> "N", t |-> t, e |-> 0]
    [] t = "L" -> [k |-> "N", t |-> "N", e |-> 0]
    [] t \in {"N", "I", "F", "S", "B"} -> [k |-> t, t |-> t, e |-> 0]
    [] t \in Errors -> [k |-> "!", t |-> IF t = "?float" THEN "number" ELSE SubSeq(t, 2, Len(t)), e |-> 0]
    [] t \in Senseless -> [k |-> SubSeq(t, 2, 2), t |-> SubSeq(t, 2, 2), e |-> 0]
    [] OTHER -> [k |-> "P", t |-> t, e |-> 0]
Lexeme == [t \in Terminals |->
  CASE t = "N" -> S("ab") [] t = "I" -> S("-7") [] t = "F" -> S("1.5e3")
    [] t = "S" -> S("\"x\\ty\"") [] t = "B" -> S("\"\"\" b \"\"\"") [] t = "L" -> S("FIELD")
    [] t = "END" -> <<>>
    [] t = "?character" -> S("%") [] t = "?dot" -> S("..") [] t = "?number" -> S("-01") [] t = "?float" -> S("1.e2")
    [] t = "?string" -> S("\"a\\\"") [] t = "?block string" -> S("\"\"\"a\\\"\"\"\"")
    [] t = "?I" -> S("9223372036854775808") [] t = "?F" -> S("-1e309") [] t = "?S" -> S("\"\\ud8g0\"")
    [] OTHER -> S(t)]
\* the kind of token that stands for terminal t of the grammar in front of f
LexemeFor(n, t) == IF n = "Location" THEN "L"
                   ELSE IF n = "RootOp" THEN "subscription" ELSE t

At_ == <<1, Len(txt) + 1>>
Typed(text, t) == IF t = "END" THEN text ELSE text \o Lexeme[t] \o <<SPC>>

-----------------------------------------------------------------------------
(* Shortest completion of a stack, as terminals                             *)

RECURSIVE Least(_), LeastItems(_, _, _)
LeastItem(n, it) ==
  CASE it[1] = "t" \/ it[1] = "v" -> IF n \in {"QDoc", "SDoc"} THEN <<>> ELSE <<LexemeFor(n, it[2])>>
    [] it[1] = "n" \/ it[1] = "+" \/ it[1] = "s" -> Least(it[2])
    [] OTHER -> <<>>
LeastItems(n, items, j) ==
  IF j > Len(items) THEN <<>> ELSE LeastItem(n, items[j]) \o LeastItems(n, items, j + 1)
\* the alternative that leads to the shortest text
Shortcut == [n \in {m \in NTs : Prod[m].k = "alt"} |->
  CASE n = "Value" -> "EnumV" [] n = "Const" -> "EnumV" [] n = "BaseType" -> "NamedType"
    [] n = "QDef" -> "Anonymous" [] n = "Selection" -> "Field" [] n = "AfterDots" -> "Spread"
    [] n = "SDef" -> "Described" [] n = "ExtBody" -> "UnionX" [] n = "Text" -> "StringV"
    [] n = "DefBody" -> "Scalar"]
Least(n) == IF Prod[n].k = "alt" THEN Least(Shortcut[n]) ELSE LeastItems(n, Prod[n].x, 1)
LeastOf == [n \in NTs |-> Least(n)]

Remaining(f) ==
  LET items == Prod[f.n].x
      it == items[f.j]
      here == IF f.j > Len(items) THEN <<>>
              ELSE IF it[1] = "+" /\ f.x # <<>> THEN <<>>
              ELSE IF it[1] = "s" /\ f.w THEN <<>>
              ELSE LeastItem(f.n, it)
  IN here \o LeastItems(f.n, items, f.j + 1)
RECURSIVE Completion(_, _)
\* an inner frame stands for its item of the outer one, so that item is already being supplied
Outer(f) == LET it == Prod[f.n].x[f.j] IN
            CASE it[1] \in {"n", "o"} -> Pass(f)
              [] it[1] \in {"*", "+"} -> [f EXCEPT !.x = <<TRUE>>]
              [] it[1] = "s" -> [f EXCEPT !.w = TRUE]
Completion(s, i) ==
  IF i = 0 THEN <<>>
  ELSE Remaining(IF i = Len(s) THEN s[i] ELSE Outer(s[i])) \o Completion(s, i - 1)

RECURSIVE Finish(_, _, _)
\* outcome of typing the terminals ts and then ending the text
Finish(s, text, ts) ==
  LET t == IF ts = <<>> THEN "END" ELSE Head(ts)
      r == Settle(s, TokenFor(t), <<1, Len(text) + 1>>)
  IN IF r[1] # "shift" THEN <<text, r>>
     ELSE IF t = "END" THEN <<text, Settle(Consume(r[2], <<>>), TokenFor("END"), <<1, Len(text) + 1>>)>>
     ELSE Finish(Consume(r[2], Lexeme[t]), Typed(text, t), Tail(ts))

Result(r) == IF r[1] = "done" THEN <<"ok", r[2]>> ELSE <<"err", r[2], r[3]>> \o (IF r[4] = <<>> THEN <<>> ELSE <<r[4], FALSE>>)
Emit_(text, r) == PrintT(ToJson([src |-> text, out |-> Result(r)]))

-----------------------------------------------------------------------------
Init == /\ stk = <<Frame(Start, <<1, 1>>)>>
        /\ txt = <<>>

\* what of a frame its future depends on
Extensions == {"ScalarX", "ObjectX", "InterfaceX", "UnionX", "EnumX", "InputX"}
Shape(f) == <<f.n, f.j, f.x # <<>>, f.w,
              IF Fine \/ f.n \in Extensions THEN [k \in 1..Len(f.a) |-> f.a[k] = <<>>] ELSE <<>>>>
RECURSIVE Shapes(_, _)
Shapes(s, i) == IF i > Len(s) THEN <<>> ELSE <<Shape(s[i])>> \o Shapes(s, i + 1)
view == Shapes(stk, 1)

Accepted(t) ==
  LET r == Settle(stk, TokenFor(t), At_) IN
    /\ r[1] = "shift"
    /\ IF t = "END"
       THEN /\ Emit_(txt, Settle(Consume(r[2], <<>>), TokenFor("END"), At_))
            /\ UNCHANGED vars
       ELSE LET next == Consume(r[2], Lexeme[t])
                text == Typed(txt, t)
                fin == Finish(next, text, Completion(next, Len(next)))
            IN /\ Emit_(fin[1], fin[2])
               /\ IF t \notin Senseless /\ Len(next) <= MaxDepth /\ OpenBrackets(next, 1) <= MaxOpen
                  THEN stk' = next /\ txt' = text
                  ELSE UNCHANGED vars

Refused(t) ==
  LET r == Settle(stk, TokenFor(t), At_) IN
    /\ r[1] = "reject"
    /\ PrintT(ToJson([src |-> Typed(txt, t), out |-> Fault(r, TokenFor(t), Lexeme[t], stk)]))
    /\ UNCHANGED vars

Next == \E t \in Terminals : Accepted(t) \/ Refused(t)

\* the open-mode machine agrees with reading the typed text (checked on every configuration)
TypedTextReadsBack ==
  LET r == RunFrom(txt, StartReader(txt), <<Frame(Start, <<1, 1>>)>>) IN
    /\ r[1] = Settle(stk, TokenFor("END"), At_) \/ Settle(stk, TokenFor("END"), At_)[1] = "shift"
    /\ OpenBrackets(stk, 1) = Limit - r[2].b
=============================================================================
