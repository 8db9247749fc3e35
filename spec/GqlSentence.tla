----------------------------- MODULE GqlSentence ------------------------------
(***************************************************************************)
(* Every sentence of few tokens.  Unlike the tour, which visits a parser   *)
(* configuration once, this keeps every way of getting there: a state is a *)
(* viable prefix, and it is extended by each token the parser shifts as    *)
(* long as it can be completed within the bound.  Each prefix is printed   *)
(* with its shortest completion, so that every document of at most that    *)
(* many tokens (over the given terminals, after a given beginning) is      *)
(* printed, with its tree and, if a style is given, its canonical text.    *)
(* Names and integers differ from place to place, so that no two parts of  *)
(* a document can be exchanged unseen.                                     *)
(***************************************************************************)
EXTENDS GqlTour, GqlPrint

\* each: letters (terminals), pre (terminals typed before), max (tokens after those), ind, multi (style; ind < 0: none)
Confs == ndJsonDeserialize(IOEnv.GQL_SENTENCE)

VARIABLES conf, used
C == Confs[conf]

LexemeAt(t, k) ==
  CASE t = "N" -> <<97 + (k % 26)>>
    [] t = "I" -> <<49 + (k % 9)>>
    [] t = "S" /\ k % 3 = 0 -> S("\"\"")
    [] OTHER -> Lexeme[t]
TypedAt(text, t, k) == text \o LexemeAt(t, k) \o <<SPC>>

RECURSIVE Typing(_, _, _, _)
Typing(pre, s, text, j) ==
  IF j > Len(pre) THEN <<s, text>>
  ELSE LET r == Settle(s, TokenFor(pre[j]), <<1, Len(text) + 1>>)
       IN Typing(pre, Consume(r[2], LexemeAt(pre[j], j)), TypedAt(text, pre[j], j), j + 1)

SInit == /\ conf \in 1..Len(Confs)
         /\ used = 0
         /\ LET y == Typing(C.pre, <<Frame(Start, <<1, 1>>)>>, <<>>, 1) IN stk = y[1] /\ txt = y[2]

Printed(r) == IF r[1] = "done" /\ C.ind >= 0
              THEN <<<<"text", PDoc(r[2], [ind |-> C.ind, multi |-> C.multi])>>>> ELSE <<>>

SNext ==
  \E j \in 1..Len(C.letters) :
    LET t == C.letters[j]
        r == Settle(stk, TokenFor(t), At_) IN
      /\ r[1] = "shift"
      /\ LET k == Len(C.pre) + used + 1
             next == Consume(r[2], LexemeAt(t, k))
             text == TypedAt(txt, t, k)
             rest == Completion(next, Len(next))
         IN /\ used + 1 + Len(rest) <= C.max
            /\ LET fin == Finish(next, text, rest)
               IN PrintT(ToJson([src |-> fin[1], id |-> conf, out |-> <<Result(fin[2])>> \o Printed(fin[2])]))
            /\ stk' = next
            /\ txt' = text
            /\ used' = used + 1
            /\ UNCHANGED conf
SView == <<conf, txt>>

\* what is typed is read back by the library as what was built while typing
SentenceReadsBack ==
  LET fin == Finish(stk, txt, Completion(stk, Len(stk)))
      r == RunFrom(fin[1], StartReader(fin[1]), <<Frame(Start, <<1, 1>>)>>)
  IN used > 0 => r[1] = fin[2]
\* its canonical text reads back as the same tree
SentencePrintsToItself ==
  LET fin == Finish(stk, txt, Completion(stk, Len(stk))) IN
    used > 0 /\ fin[2][1] = "done" /\ C.ind >= 0 =>
      LET text == Unmark(PDoc(fin[2][2], [ind |-> C.ind, multi |-> C.multi]))
          r == RunFrom(text, StartReader(text), <<Frame(Start, <<1, 1>>)>>)
      IN r[1][1] = "done" /\ Strip(r[1][2]) = Strip(fin[2][2])
=============================================================================
