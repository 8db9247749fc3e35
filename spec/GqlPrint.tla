------------------------------- MODULE GqlPrint -------------------------------
(***************************************************************************)
(* The canonical text of a node.  A style st is [ind |-> spaces per level, *)
(* multi |-> arguments one per line]; m is the current margin in spaces.   *)
(* A float may be written as any number literal of the same value, so its  *)
(* literal is put between the markers FO and FC, which are no code points. *)
(***************************************************************************)
EXTENDS GqlAst

FO == 0 - 1
FC == 0 - 2
\* text with the markers taken out
Unmark(s) == SelectSeq(s, LAMBDA c : c >= 0)

OptText(o, before) == IF o = <<>> THEN <<>> ELSE before \o o[1]

-----------------------------------------------------------------------------
(* Strings                                                                  *)

HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Escaped(c) ==
  IF c = CR THEN <<BSL, 114>> ELSE IF c = LF THEN <<BSL, 110>> ELSE IF c = TAB THEN <<BSL, 116>>
  ELSE IF c = QUOTE \/ c = BSL THEN <<BSL, c>>
  ELSE IF c >= SPC THEN <<c>>
  ELSE <<BSL, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>

RECURSIVE EscapeAll(_, _, _)
EscapeAll(s, i, out) == IF i > Len(s) THEN out ELSE EscapeAll(s, i + 1, out \o Escaped(s[i]))

RECURSIVE SplitLF(_, _, _)
SplitLF(s, start, i) ==
  IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
  ELSE IF s[i] = LF THEN <<SubSeq(s, start, i - 1)>> \o SplitLF(s, i + 1, i + 1)
  ELSE SplitLF(s, start, i + 1)

\* A block string can hold s exactly when reading it back gives s: reading removes common
\* indentation, blank lines at the ends and carriage returns, and it cannot write controls.
WantsBlock(s) ==
  /\ \E i \in 1..Len(s) : s[i] = LF
  /\ \A i \in 1..Len(s) : s[i] >= SPC \/ s[i] \in {LF, TAB}
  /\ LET ls == SplitLF(s, 1, 1) IN
       /\ ~BlankLine(ls[1]) /\ ~BlankLine(ls[Len(ls)])
       /\ \A j \in 1..Len(ls) : ls[j] = <<>> \/ ~BlankLine(ls[j])
       /\ \E j \in 1..Len(ls) : ls[j] # <<>> /\ ~IsBlank(ls[j][1])

RECURSIVE Requote3(_, _, _)
Requote3(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE IF Quotes3(s, i) THEN Requote3(s, i + 3, out \o <<BSL, QUOTE, QUOTE, QUOTE>>)
  ELSE Requote3(s, i + 1, Append(out, s[i]))

Triple == <<QUOTE, QUOTE, QUOTE>>

PStr(s, st, m) ==
  IF WantsBlock(s) THEN
    LET ls == SplitLF(s, 1, 1)
        line(l) == IF l = <<>> THEN <<LF>> ELSE Spaces(m + st.ind) \o Requote3(l, 1, <<>>) \o <<LF>>
    IN Triple \o <<LF>> \o Flat([j \in 1..Len(ls) |-> line(ls[j])], 1) \o Spaces(m) \o Triple
  ELSE <<QUOTE>> \o EscapeAll(s, 1, <<>>) \o <<QUOTE>>

-----------------------------------------------------------------------------
(* Shared by both languages                                                 *)

\* a bracketed list of n pieces; P(j, margin) is piece j
Inside(st, m) == IF st.multi THEN m + st.ind ELSE m
Bracketed(open, pieces, close, st, m) ==
  IF st.multi
  THEN <<open>> \o Flat([j \in 1..Len(pieces) |->
                          (IF j > 1 THEN <<COMMA>> ELSE <<>>) \o <<LF>> \o Spaces(m + st.ind) \o pieces[j]], 1)
       \o <<LF>> \o Spaces(m) \o <<close>>
  ELSE <<open>> \o JoinBy(pieces, <<COMMA, SPC>>, 1) \o <<close>>

RECURSIVE PValue(_, _, _)
PMembers(ms, st, m) == [j \in 1..Len(ms) |-> ms[j][1] \o S(": ") \o PValue(ms[j][2], st, m)]
PValue(v, st, m) ==
  CASE v[1] = "var" -> S("$") \o v[2]
    [] v[1] = "int" -> v[2]
    [] v[1] = "float" -> <<FO>> \o v[2] \o <<FC>>
    [] v[1] = "str" -> PStr(v[2], st, m)
    [] v[1] = "bool" -> S(v[2])
    [] v[1] = "null" -> S("null")
    [] v[1] = "enumv" -> v[2]
    [] v[1] = "list" -> Bracketed(91, [j \in 1..Len(v[2]) |-> PValue(v[2][j], st, Inside(st, m))], 93, st, m)
    [] v[1] = "obj" -> Bracketed(123, PMembers(v[2], st, Inside(st, m)), 125, st, m)

PArgs(args, st, m) ==
  IF args = <<>> THEN <<>> ELSE Bracketed(40, PMembers(args, st, Inside(st, m)), 41, st, m)

PDir(d, st, m) == S("@") \o d[3] \o PArgs(d[4], st, m)
PDirs(ds, st, m) == Flat([j \in 1..Len(ds) |-> <<SPC>> \o PDir(ds[j], st, m)], 1)

RECURSIVE PType(_)
PType(t) ==
  CASE t[1] = "named" -> t[2]
    [] t[1] = "listof" -> S("[") \o PType(t[2]) \o S("]")
    [] t[1] = "nonnull" -> PType(t[2]) \o S("!")

\* { lines } where each line is already indented and terminated
Block(lines, m) == S("{") \o <<LF>> \o Flat(lines, 1) \o Spaces(m) \o S("}") \o <<LF>>

-----------------------------------------------------------------------------
(* Query language                                                           *)

RECURSIVE PSel(_, _, _)
PSelBlock(sel, st, m) == Block([j \in 1..Len(sel[4]) |-> PSel(sel[4][j], st, m + st.ind)], m)
PCond(name) == S("on ") \o name
PSel(x, st, m) ==
  Spaces(m) \o
  CASE x[1] = "field" ->
         (IF x[3] = <<>> THEN <<>> ELSE x[3][1] \o S(": ")) \o x[4] \o PArgs(x[5], st, m)
         \o PDirs(x[6], st, m)
         \o (IF x[7][4] = <<>> THEN <<LF>> ELSE <<SPC>> \o PSelBlock(x[7], st, m))
    [] x[1] = "inline" ->
         S("...") \o (IF x[3] = <<>> THEN <<>> ELSE <<SPC>> \o PCond(x[3][1])) \o PDirs(x[4], st, m)
         \o <<SPC>> \o PSelBlock(x[5], st, m)
    [] x[1] = "spread" -> S("...") \o x[3] \o PDirs(x[4], st, m) \o <<LF>>

PVar(v, st, m) ==
  S("$") \o v[3] \o S(": ") \o PType(v[4])
  \o (IF v[5] = <<>> THEN <<>> ELSE S(" = ") \o PValue(v[5][1], st, m))

POperation(x, st) ==
  S(x[1]) \o OptText(x[3], <<SPC>>)
  \o (IF x[4] = <<>> THEN <<>>
      ELSE S("(") \o JoinBy([j \in 1..Len(x[4]) |-> PVar(x[4][j], st, 0)], S(", "), 1) \o S(")"))
  \o PDirs(x[5], st, 0) \o <<SPC>> \o PSelBlock(x[6], st, 0)

-----------------------------------------------------------------------------
(* Schema language                                                          *)

\* description on a line of its own / on the same line
DescLine(d, st, m) == IF d = <<>> THEN <<>> ELSE Spaces(m) \o PStr(d[1], st, m) \o <<LF>>
DescHere(d, st, m) == IF d = <<>> THEN <<>> ELSE PStr(d[1], st, m) \o <<SPC>>

PImplements(names) == IF names = <<>> THEN <<>> ELSE S(" implements ") \o JoinBy(names, S(" & "), 1)
PMembersOf(names) == IF names = <<>> THEN <<>> ELSE S(" = ") \o JoinBy(names, S(" | "), 1)
Body(lines) == IF lines = <<>> THEN <<LF>> ELSE <<SPC>> \o Block(lines, 0)

PInVal(x, st, m) ==
  DescHere(x[3], st, m) \o x[4] \o S(": ") \o PType(x[5])
  \o (IF x[6] = <<>> THEN <<>> ELSE S(" = ") \o PValue(x[6][1], st, m))
  \o PDirs(x[7], st, m)
PParams(xs, st, m) ==
  IF xs = <<>> THEN <<>>
  ELSE S("(") \o JoinBy([j \in 1..Len(xs) |-> PInVal(xs[j], st, m)], S(", "), 1) \o S(")")
PField(x, st, m) ==
  DescLine(x[3], st, m) \o Spaces(m) \o x[4] \o PParams(x[5], st, m) \o S(": ") \o PType(x[6])
  \o PDirs(x[7], st, m) \o <<LF>>
PEnumVal(x, st, m) ==
  Spaces(m) \o DescHere(x[3], st, m) \o x[4] \o PDirs(x[5], st, m) \o <<LF>>

FieldLines(fs, st) == [j \in 1..Len(fs) |-> PField(fs[j], st, st.ind)]
InputLines(fs, st) == [j \in 1..Len(fs) |-> Spaces(st.ind) \o PInVal(fs[j], st, st.ind) \o <<LF>>]
EnumLines(vs, st) == [j \in 1..Len(vs) |-> PEnumVal(vs[j], st, st.ind)]
RootLine(k, o, st) == IF o = <<>> THEN <<>> ELSE <<Spaces(st.ind) \o S(k) \o S(": ") \o o[1] \o <<LF>>>>

\* one definition, at the left margin
PDef(x, st) ==
  CASE x[1] = "anon" -> PSelBlock(x[2], st, 0)
    [] x[1] \in {"query", "mutation", "subscription"} -> POperation(x, st)
    [] x[1] = "fragment" ->
         S("fragment ") \o x[3] \o <<SPC>> \o PCond(x[4]) \o PDirs(x[5], st, 0) \o <<SPC>> \o PSelBlock(x[6], st, 0)
    [] x[1] = "schema" ->
         S("schema") \o PDirs(x[3], st, 0) \o <<SPC>>
         \o Block(RootLine("query", x[4], st) \o RootLine("mutation", x[5], st)
                  \o RootLine("subscription", x[6], st), 0)
    [] x[1] = "scalar" -> DescLine(x[3], st, 0) \o S("scalar ") \o x[4] \o PDirs(x[5], st, 0) \o <<LF>>
    [] x[1] = "scalar+" -> S("extend scalar ") \o x[3] \o PDirs(x[4], st, 0) \o <<LF>>
    [] x[1] \in {"type", "interface"} ->
         DescLine(x[3], st, 0) \o S(x[1]) \o <<SPC>> \o x[4] \o PImplements(x[5]) \o PDirs(x[6], st, 0)
         \o Body(FieldLines(x[7], st))
    [] x[1] \in {"type+", "interface+"} ->
         S("extend ") \o S(SubSeq(x[1], 1, Len(x[1]) - 1)) \o <<SPC>> \o x[3] \o PImplements(x[4])
         \o PDirs(x[5], st, 0) \o Body(FieldLines(x[6], st))
    [] x[1] = "union" ->
         DescLine(x[3], st, 0) \o S("union ") \o x[4] \o PDirs(x[5], st, 0) \o PMembersOf(x[6]) \o <<LF>>
    [] x[1] = "union+" -> S("extend union ") \o x[3] \o PDirs(x[4], st, 0) \o PMembersOf(x[5]) \o <<LF>>
    [] x[1] = "enum" ->
         DescLine(x[3], st, 0) \o S("enum ") \o x[4] \o PDirs(x[5], st, 0) \o Body(EnumLines(x[6], st))
    [] x[1] = "enum+" -> S("extend enum ") \o x[3] \o PDirs(x[4], st, 0) \o Body(EnumLines(x[5], st))
    [] x[1] = "input" ->
         DescLine(x[3], st, 0) \o S("input ") \o x[4] \o PDirs(x[5], st, 0) \o Body(InputLines(x[6], st))
    [] x[1] = "input+" -> S("extend input ") \o x[3] \o PDirs(x[4], st, 0) \o Body(InputLines(x[5], st))
    [] x[1] = "directive" ->
         DescLine(x[3], st, 0) \o S("directive @") \o x[4] \o PParams(x[5], st, 0)
         \o (IF x[6] = "true" THEN S(" repeatable") ELSE <<>>) \o S(" on")
         \o (IF x[7] = <<>> THEN <<>> ELSE <<SPC>> \o JoinBy(x[7], S(" | "), 1)) \o <<LF>>

PDoc(defs, st) == JoinBy([j \in 1..Len(defs) |-> PDef(defs[j], st)], <<LF>>, 1)

DefaultStyle == [ind |-> 2, multi |-> FALSE]
=============================================================================
