------------------------------- MODULE GqlMachine ------------------------------
(***************************************************************************)
(* The library as a state machine.  A job is a text and a list of requests *)
(* to make about it, one after another; each appends its outcome to `hist` *)
(*   <<"parse", start>>       read the text as QDoc or SDoc                *)
(*   <<"print", n, multi>>    canonical text of what was read, as a style  *)
(*   <<"reread">>             read the text last printed                   *)
(*   <<"reprint">>            print that again in the same style           *)
(*   <<"minify">>             minified text                                *)
(*   <<"reminify">>           minify the minified text                     *)
(*   <<"readmin", start>>     read the minified text                       *)
(*   <<"consume">>            take definitions off the front until the     *)
(*                            text ends or does not start with one         *)
(*   <<"build", start>>       take the tree J.ast as if it had been read   *)
(*   <<"nodes">>              every node of the tree, printed on its own   *)
(*   <<"location">>           read the text as a directive location name   *)
(*   <<"same", start, text>>  read that other text, to compare the trees    *)
(*   <<"order", positions>>   compare the positions                         *)
(*   <<"new", tags>>          the bare definitions of these kinds, named by *)
(*                            the text, as the tree read                    *)
(*   <<"default">>            the empty document, schema and position       *)
(*   <<"number">>             the text's 32-bit integer as a Number         *)
(* Reading goes token by token (Read, TakeOne), minifying too (Emit).      *)
(***************************************************************************)
EXTENDS GqlParser, GqlNodes, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.GQL_JOBS)

VARIABLES
  job,     \* index of the job
  step,    \* index of the request being worked on
  pc,      \* "idle" between requests, "read", "emit", "take", "end"
  src,     \* the text being read
  rd,      \* the reader in src
  stk,     \* the parser stack (pc = "read" or "take")
  base,    \* consume: offset in the job's text where src starts
  out,     \* text or list being produced
  ast,     \* definitions read by <<"parse">>
  prn,     \* text last printed, with float markers
  sty,     \* style last used
  mini,    \* text last minified
  hist     \* outcomes so far

vars == <<job, step, pc, src, rd, stk, base, out, ast, prn, sty, mini, hist>>
\* a job's run is deterministic, so this identifies a state
view == <<job, step, pc, rd.i, base, Len(stk), Len(hist)>>

J    == Jobs[job]
Last == hist[Len(hist)]
Req  == J.req[step]
Here_ == <<rd.l, rd.c>>
Tok_ == ReadTok(src, rd.i, rd.b)
Advance(tok) == [After(src, rd, tok) EXCEPT !.b = Charge(rd.b, src, rd.i, tok)]

NoReader == [i |-> 0, l |-> 0, c |-> 0, b |-> 0]

Init ==
  /\ job \in 1..Len(Jobs)
  /\ step = 1 /\ pc = "idle"
  /\ src = <<>> /\ rd = NoReader /\ stk = <<>> /\ base = 0
  /\ out = <<>> /\ ast = <<>> /\ prn = <<>> /\ sty = DefaultStyle /\ mini = <<>>
  /\ hist = <<>>

\* the language of the tree (fresh definitions are always of a schema)
Language == IF J.req[1][1] \in {"parse", "build"} THEN J.req[1][2] ELSE "SDoc"

\* --- starting a request ---------------------------------------------------
Open(text, start, where) ==
  LET r == StartReader(text) IN
    /\ src' = text
    /\ rd' = r
    /\ stk' = IF start = "" THEN <<>> ELSE <<Frame(start, <<r.l, r.c>>)>>
    /\ pc' = where

BeginRead ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] \in {"parse", "reread", "readmin"}
  /\ Open(IF Req[1] = "parse" THEN J.src ELSE IF Req[1] = "reread" THEN Unmark(prn) ELSE mini,
          IF Req[1] = "reread" THEN Language ELSE Req[2], "read")
  /\ UNCHANGED <<job, step, base, out, ast, prn, sty, mini, hist>>

BeginMinify ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] \in {"minify", "reminify"}
  /\ Open(IF Req[1] = "minify" THEN J.src ELSE mini, "", "emit")
  /\ out' = [text |-> <<>>, last |-> "P"]
  /\ UNCHANGED <<job, step, base, ast, prn, sty, mini, hist>>

BeginConsume ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "consume"
  /\ Open(J.src, "QDef", "take")
  /\ base' = 0 /\ out' = <<>>
  /\ UNCHANGED <<job, step, ast, prn, sty, mini, hist>>

\* --- one token ------------------------------------------------------------
\* QDef is a choice: a definition being consumed enters the production its first token begins
SettleHere(tok) ==
  IF Top(stk).n = "QDef" THEN
    LET r == Resolve("QDef", tok) IN
      IF r = "" THEN <<"reject", Here_, Why(tok), <<>>>> ELSE Settle(<<Frame(r, Here_)>>, tok, Here_)
  ELSE Settle(stk, tok, Here_)

\* a failed request takes those that build on it along
Dependent == {"same", "print", "reread", "reprint", "reminify", "readmin", "nodes"}
RECURSIVE Skipped(_)
Skipped(k) == IF k > Len(J.req) \/ J.req[k][1] \notin Dependent THEN <<>>
              ELSE <<<<"skip">>>> \o Skipped(k + 1)

\* hist[k] is the outcome of J.req[k]
Outcome(o) == hist' = Append(hist, o) /\ step' = step + 1 /\ pc' = "idle"
Failure(o) == LET sk == Skipped(step + 1) IN
              hist' = Append(hist, o) \o sk /\ step' = step + 1 + Len(sk) /\ pc' = "idle"

\* take the token tok
ShiftTo(stk2, tok) ==
  /\ stk' = Consume(stk2, Raw(src, rd.i, tok))
  /\ rd' = Advance(tok)
  /\ UNCHANGED <<job, step, pc, src, base, out, ast, prn, sty, mini, hist>>

\* the text is complete
Accept(tree) ==
  /\ Outcome(<<"ok", tree>>)
  /\ ast' = IF Req[1] = "parse" THEN tree ELSE ast
  /\ UNCHANGED <<job, src, rd, stk, base, out, prn, sty, mini>>

Reject(r, tok) ==
  /\ Failure(Fault(r, tok, Raw(src, rd.i, tok), stk))
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

Read ==
  /\ pc = "read"
  /\ LET tok == Tok_
         r == Settle(stk, tok, Here_)
     IN CASE r[1] = "shift"  -> ShiftTo(r[2], tok)
          [] r[1] = "done"   -> Accept(r[2])
          [] r[1] = "reject" -> Reject(r, tok)

\* minifying: the token itself, and a space only where it would otherwise run into the last one
Emit ==
  /\ pc = "emit"
  /\ LET tok == Tok_ IN
     IF tok.k = "END" THEN
       /\ Outcome(<<"ok", out.text>>)
       /\ mini' = out.text
       /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty>>
     ELSE IF tok.k = "!" THEN
       /\ Failure(<<"err", Here_, tok.t, <<Malformed(tok, Raw(src, rd.i, tok))>>>>)
       /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>
     ELSE
       /\ out' = [text |-> out.text \o Glue(out.last, tok) \o Raw(src, rd.i, tok), last |-> tok.k]
       /\ rd' = Advance(tok)
       /\ UNCHANGED <<job, step, pc, src, stk, base, ast, prn, sty, mini, hist>>

\* a definition is complete: the rest starts at the next token, and is read afresh
Taken(def) ==
  /\ out' = Append(out, <<def, base + rd.i - 1>>)
  /\ IF rd.i > Len(src)
     THEN /\ Outcome(<<"ok", out'>>)
          /\ UNCHANGED <<src, rd, stk, base>>
     ELSE /\ base' = base + rd.i - 1
          /\ Open(SubSeq(src, rd.i, Len(src)), "QDef", "take")
          /\ UNCHANGED <<step, hist>>
  /\ UNCHANGED <<job, ast, prn, sty, mini>>

TakeOne ==
  /\ pc = "take"
  /\ LET tok == Tok_
         r == SettleHere(tok)
     IN CASE r[1] = "shift"  -> ShiftTo(r[2], tok)
          [] r[1] = "done"   -> Taken(r[2])
          [] r[1] = "reject" -> /\ Outcome(<<"stop", out, r[2], r[3]>>)
                                /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

\* --- requests without reading ----------------------------------------------
\* a tree made by hand
Adopt ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "build"
  /\ ast' = J.ast
  /\ Outcome(<<"ok", ast'>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, prn, sty, mini>>

\* the standing text as the name of a directive location
Locate ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "location"
  /\ Outcome(IF J.src \in LocationNames
             THEN <<"ok", J.src, J.src \in QueryLocations, J.src \notin QueryLocations>>
             ELSE <<"none">>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

\* another text's tree, to be compared with the one read; trees are the same exactly if they are
\* the same term (numbers up to the value of their literals)
Compare ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "same"
  /\ LET y == Run(Req[3], Req[2]) IN
       Outcome(IF y[1] = "done" THEN <<"same", y[2]>> ELSE <<"none">>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

\* positions are ordered by line and then column: how many come before, after and with each, and how it shows
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Order ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "order"
  /\ LET P == Req[2]
         Count(R(_, _)) == [i \in 1..Len(P) |-> Cardinality({j \in 1..Len(P) : R(P[j], P[i])})]
     IN Outcome(<<"order", Count(Before), Count(LAMBDA p, q : Before(q, p)), Count(LAMBDA p, q : p = q),
                  [i \in 1..Len(P) |-> S(ToString(P[i][1])) \o S(":") \o S(ToString(P[i][2]))]>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

\* definitions fresh from their constructors
New ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "new"
  /\ ast' = [j \in 1..Len(Req[2]) |-> Fresh(Req[2][j], J.src)]
  /\ Outcome(<<"ok", ast'>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, prn, sty, mini>>
Default ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "default"
  /\ Outcome(<<"default", <<>>, <<EmptySchema>>, NoPos, PDoc(<<EmptySchema>>, DefaultStyle)>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>
\* a number made by hand has the value it was made from
NumberOf ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "number"
  /\ Outcome(<<"number", J.src, J.src>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

\* the nodes of the tree on their own
Split ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] = "nodes"
  /\ Outcome(<<"nodes", NDoc(ast)>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, prn, sty, mini>>

Render ==
  /\ pc = "idle" /\ step <= Len(J.req) /\ Req[1] \in {"print", "reprint"}
  /\ LET st == IF Req[1] = "print" THEN [ind |-> Req[2], multi |-> Req[3]] ELSE sty
         tree == IF Req[1] = "print" THEN ast ELSE Last[2]
     IN /\ sty' = st
        /\ prn' = PDoc(tree, st)
        /\ Outcome(<<"text", prn'>>)
  /\ UNCHANGED <<job, src, rd, stk, base, out, ast, mini>>

\* nothing left to do: report the expected outcomes to the conformance harness
Report ==
  /\ pc = "idle" /\ step > Len(J.req)
  /\ pc' = "end"
  /\ PrintT(ToJson([id |-> J.id, out |-> hist]))
  /\ UNCHANGED <<job, step, src, rd, stk, base, out, ast, prn, sty, mini, hist>>

Next == BeginRead \/ BeginMinify \/ BeginConsume \/ Adopt \/ Locate \/ Split \/ Compare \/ Order
        \/ New \/ Default \/ NumberOf
        \/ Read \/ Emit \/ TakeOne \/ Render \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What must hold                                                           *)

\* the request just answered was of kind k
Done(k) == pc = "idle" /\ Len(hist) > 0 /\ J.req[Len(hist)][1] = k /\ Last[1] # "skip"

HistoryInStep == Len(hist) = step - 1

\* brackets left = limit - brackets open (C11)
BudgetCountsOpenBrackets ==
  pc \in {"read", "take"} /\ stk # <<>> => rd.b = Limit - OpenBrackets(stk, 1) /\ rd.b >= 0

\* no state except the end is stuck: every text is decided (C12)
Decided == pc # "end" => ENABLED Next

\* the reader always stands at a token, and only moves forward
AtToken == pc \in {"read", "emit", "take"} =>
             rd.i >= 1 /\ rd.i <= Len(src) + 1 /\ Skip(src, rd.i, rd.l, rd.c)[1] = rd.i

\* line and column, counted from the text alone for lines without quotes or comments (C10)
WidthOf(c) == IF c = TAB THEN 8 ELSE IF c = CR \/ c = BOM THEN 0 ELSE 1
RECURSIVE Width(_, _, _)
Width(s, i, to) == IF i >= to THEN 0 ELSE WidthOf(s[i]) + Width(s, i + 1, to)
PositionsAreCounted ==
  pc \in {"read", "emit", "take"} =>
    LET lf == LastLF(src, 1, rd.i - 1) IN
      /\ (\A k \in (lf + 1)..(rd.i - 1) : src[k] # QUOTE /\ src[k] # HASH) =>
            rd.c = 1 + Width(src, lf + 1, rd.i)
      \* only a lone carriage return ending a comment breaks a line without a line feed
      /\ (\A k \in 1..(rd.i - 1) : src[k] # CR) => rd.l = 1 + CountLF(src, 1, rd.i - 1)

\* printed text reads back as the same tree (C13, C14, C16)
RoundTrip ==
  Done("reread") =>
    /\ Last[1] = "ok"
    /\ StripAll(Last[2]) = StripAll(ast)

\* printing what was read back gives the same text (C15)
PrintIsStable ==
  Done("reprint") => Last = hist[Len(hist) - 2]

RECURSIVE Bare(_, _, _)
\* text outside its strings, which are cut down to a single quote
Bare(s, rd_, out_) ==
  LET tok == ReadTok(s, rd_.i, rd_.b)
      nxt == [After(s, rd_, tok) EXCEPT !.b = Charge(rd_.b, s, rd_.i, tok)]
  IN IF tok.k \in {"END", "!"} THEN out_
     ELSE Bare(s, nxt, out_ \o (IF tok.k \in {"S", "B"} THEN <<QUOTE>> ELSE Raw(s, rd_.i, tok))
                            \o SubSeq(s, tok.e, nxt.i - 1))

\* minified text has the same tokens (C17) and nothing else but needed spaces (C18)
MinifyKeepsTokens ==
  Done("minify") /\ Last[1] = "ok" =>
    /\ Tokens(mini) = Tokens(J.src)
    /\ LET b == Bare(mini, StartReader(mini), <<>>) IN
         \A i \in 1..Len(b) : b[i] \notin {COMMA, LF, TAB, BOM, CR, HASH}
                              /\ (b[i] = SPC => i > 1 /\ i < Len(b) /\ b[i - 1] # SPC)
MinifyIsStable ==
  Done("reminify") => Last = <<"ok", mini>> /\ Last = hist[Len(hist) - 1]
\* and the same meaning (C05, C17)
MinifyKeepsMeaning ==
  Done("readmin") /\ J.req[1][1] = "parse" /\ hist[1][1] = "ok" =>
    /\ Last[1] = "ok"
    /\ StripAll(Last[2]) = StripAll(hist[1][2])

\* taking definitions off one by one gives the definitions of the whole document (C19, C24)
ConsumeAgrees ==
  Done("consume") =>
    LET o == Last
        whole == Run(J.src, "QDoc")
    IN /\ o[1] = "ok" <=> whole[1] = "done"
       /\ o[1] = "ok" => [j \in 1..Len(o[2]) |-> Strip(o[2][j][1])] = StripAll(whole[2])
       /\ \A j \in 1..(Len(o[2]) - 1) : o[2][j][2] < o[2][j + 1][2]
=============================================================================
