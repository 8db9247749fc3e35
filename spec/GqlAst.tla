-------------------------------- MODULE GqlAst --------------------------------
(***************************************************************************)
(* What the text means: Build(n, a, p) is the abstract syntax of an        *)
(* occurrence of production n that starts at position p = <<line, column>> *)
(* and whose items contributed a[1], a[2], ...                             *)
(* The result is <<"ok", node>> or <<"bad", why, lines>>: some texts are    *)
(* well-formed but mean nothing (an integer out of range, an extension     *)
(* that extends nothing, ...); the lines are what a message says of it.     *)
(* Absent things are <<>>, present ones <<x>>; names and strings are code  *)
(* point sequences.                                                        *)
(***************************************************************************)
EXTENDS GqlGrammar

Ok(v)    == <<"ok", v>>
Wrong(w, line) == <<"bad", w, <<line>>>>
Unexpected(text) == Says("Unexpected " \o text)

-----------------------------------------------------------------------------
(* Quoted strings                                                           *)

\* one-letter escapes
EscapeValue == [c \in {QUOTE, BSL, SLASH, 98, 102, 110, 114, 116} |->
  IF c = 98 THEN 8 ELSE IF c = 102 THEN 12 ELSE IF c = 110 THEN LF
  ELSE IF c = 114 THEN CR ELSE IF c = 116 THEN TAB ELSE c]

RECURSIVE HexEnd(_, _, _)
\* where the hexadecimal digits from i on end, at e at the latest
HexEnd(s, i, e) == IF i < e /\ i <= Len(s) /\ IsHex(s[i]) THEN HexEnd(s, i + 1, e) ELSE i

\* s is the content between the quotes
RECURSIVE Unescape(_, _, _)
Unescape(s, i, out) ==
  IF i > Len(s) THEN Ok(out)
  ELSE IF s[i] # BSL THEN Unescape(s, i + 1, Append(out, s[i]))
  ELSE LET x == s[i + 1] IN
    IF x \in DOMAIN EscapeValue THEN Unescape(s, i + 2, Append(out, EscapeValue[x]))
    ELSE IF x = 117 THEN
      LET h == HexEnd(s, i + 2, i + 6) IN
      IF h < i + 6 /\ h > Len(s)
      THEN Wrong("escape", <<Unexpected("\\u must have 4 characters after it, only found '"),
                             <<"", SubSeq(s, i + 2, Len(s)) \o S("'")>>>>)
      ELSE IF h < i + 6 THEN Wrong("escape", <<Unexpected("bad hex digit "), Char(s[h]), Says(" in \\u escape")>>)
      ELSE LET v == 4096 * HexVal(s[i + 2]) + 256 * HexVal(s[i + 3]) + 16 * HexVal(s[i + 4])
                    + HexVal(s[i + 5])
           IN IF v >= 55296 /\ v <= 57343 
              THEN Wrong("surrogate", <<Says("Unexpected "), <<"", SubSeq(s, i + 2, i + 5)>>,
                                        Says(" is not a valid unicode code point")>>)
              ELSE Unescape(s, i + 6, Append(out, v))
    ELSE Wrong("escape", <<Unexpected("bad escaped char "), Char(x)>>)

StringValue(raw) == Unescape(SubSeq(raw, 2, Len(raw) - 1), 1, <<>>)

-----------------------------------------------------------------------------
(* Block strings                                                            *)

RECURSIVE LinesFrom(_, _, _)
\* lines of s: split at line feeds; a carriage return before a line feed is not content
LinesFrom(s, start, i) ==
  IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
  ELSE IF s[i] = LF THEN
    <<SubSeq(s, start, IF i > start /\ s[i - 1] = CR THEN i - 2 ELSE i - 1)>> \o LinesFrom(s, i + 1, i + 1)
  ELSE LinesFrom(s, start, i + 1)
Lines(s) == LinesFrom(s, 1, 1)

RECURSIVE IndentOf(_, _)
IndentOf(line, i) == IF i <= Len(line) /\ IsBlank(line[i]) THEN IndentOf(line, i + 1) ELSE i - 1
BlankLine(line) == IndentOf(line, 1) = Len(line)

Min(S_) == CHOOSE x \in S_ : \A y \in S_ : x <= y
Max(S_) == CHOOSE x \in S_ : \A y \in S_ : x >= y

RECURSIVE Unquote3(_, _, _)
\* each \"""  is three quotes
Unquote3(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE IF s[i] = BSL /\ Quotes3(s, i + 1) THEN Unquote3(s, i + 4, out \o <<QUOTE, QUOTE, QUOTE>>)
  ELSE Unquote3(s, i + 1, Append(out, s[i]))

BlockValue(raw) ==
  LET lines == Lines(SubSeq(raw, 4, Len(raw) - 3))
      full  == {j \in 1..Len(lines) : ~BlankLine(lines[j])}
      inner == full \ {1}
      common == IF inner = {} THEN 0 ELSE Min({IndentOf(lines[j], 1) : j \in inner})
      cut(j) == IF j = 1 THEN lines[j]
                ELSE IF Len(lines[j]) < common THEN <<>> ELSE SubSeq(lines[j], common + 1, Len(lines[j]))
      first == Min(full)
      last  == Max(full)
  IN IF full = {} THEN <<>>
     ELSE JoinBy([k \in 1..(last - first + 1) |-> Unquote3(cut(first + k - 1), 1, <<>>)], <<LF>>, 1)

-----------------------------------------------------------------------------
(* Numbers.  Values stay decimal digit sequences: TLC integers are 32 bits. *)

MaxInt64 == S("9223372036854775807")
MinInt64 == S("9223372036854775808")    \* without its sign
\* first decimal magnitude that rounds to infinity: 2^1024 - 2^970, which has 309 digits
FloatLimit == S("179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880177904174497792")

DigitsLE(a, b) == \/ Len(a) < Len(b)
                  \/ Len(a) = Len(b) /\ ~LexLess(b, a, 1)

IntMeaning(raw) ==
  LET neg == raw[1] = MINUS
      digits == IF neg THEN Tail(raw) ELSE raw
  IN IF digits = S("0") THEN Ok(<<"int", digits>>)
     ELSE IF DigitsLE(digits, IF neg THEN MinInt64 ELSE MaxInt64) THEN Ok(<<"int", raw>>)
     ELSE Wrong("integer range", <<Says(IF neg THEN "number too small to fit in target type"
                                              ELSE "number too large to fit in target type")>>)

RECURSIVE NonZeroAt(_, _)
NonZeroAt(d, i) == IF i > Len(d) \/ d[i] # ZERO THEN i ELSE NonZeroAt(d, i + 1)
RECURSIVE DecValue(_, _, _)
\* value of the digits d[i..], saturated
DecValue(d, i, acc) == IF i > Len(d) THEN acc
                       ELSE IF acc > 1000000 THEN acc
                       ELSE DecValue(d, i + 1, 10 * acc + (d[i] - ZERO))

\* the number is 0.DIGITS * 10^point with DIGITS not starting with 0; [] for zero
FloatParts(raw) ==
  LET p == IntPartEnd(raw, 1)
      f == FracEnd(raw, p)
      i0 == IF raw[1] = MINUS THEN 2 ELSE 1
      int == SubSeq(raw, i0, p - 1)
      frac == IF f = p THEN <<>> ELSE SubSeq(raw, p + 1, f - 1)
      all == int \o frac
      z == NonZeroAt(all, 1)
      signed == At(raw, f + 1, PLUS) \/ At(raw, f + 1, MINUS)
      mag == IF f > Len(raw) THEN 0 ELSE DecValue(SubSeq(raw, IF signed THEN f + 2 ELSE f + 1, Len(raw)), 1, 0)
      exp == IF At(raw, f + 1, MINUS) THEN 0 - mag ELSE mag
  IN [digits |-> SubSeq(all, z, Len(all)), point |-> Len(int) - (z - 1) + exp]

FloatMeaning(raw) ==
  LET f == FloatParts(raw) IN
    IF f.digits = <<>> \/ f.point < 309 \/ (f.point = 309 /\ LexLess(f.digits, FloatLimit, 1))
    THEN Ok(<<"float", raw>>) ELSE Wrong("float range", <<Unexpected("float "), Quoted(raw), Says(" out of range")>>)

-----------------------------------------------------------------------------
(* Nodes                                                                    *)

OrNil(o) == IF o = <<>> THEN <<>> ELSE o[1]

RECURSIVE Insert(_, _, _)
\* members kept sorted by key, the last one written winning
Insert(ms, m, i) ==
  IF i > Len(ms) THEN Append(ms, m)
  ELSE IF ms[i][1] = m[1] THEN [ms EXCEPT ![i] = m]
  ELSE IF LexLess(m[1], ms[i][1], 1) THEN SubSeq(ms, 1, i - 1) \o <<m>> \o SubSeq(ms, i, Len(ms))
  ELSE Insert(ms, m, i + 1)
RECURSIVE ObjectOf(_, _, _)
ObjectOf(ms, i, out) == IF i > Len(ms) THEN out ELSE ObjectOf(ms, i + 1, Insert(out, ms[i], 1))

\* types of the root operations named kind, in order
RootsOf(ops, kind) == SelectSeq(ops, LAMBDA op : op[1] = S(kind))
SchemaMeaning(p, dirs, ops) ==
  LET stray == {j \in 1..Len(ops) : ops[j][1] \notin {S("query"), S("mutation"), S("subscription")}}
      again == {j \in (1..Len(ops)) \ stray : \E k \in 1..(j - 1) : ops[k][1] = ops[j][1]}
      \* a line for each fault, in their order; saying the same twice is of no use
      line(j) == IF j \in stray THEN <<Says("Unexpected `"), <<"", ops[j][1]>>, Says("[Name]`")>>
                 ELSE <<Unexpected("duplicate `"), <<"", ops[j][1]>>, Says("` operation")>>
      faults == SelectSeq([j \in 1..Len(ops) |-> j],
                          LAMBDA j : j \in stray \cup again /\ \A k \in (stray \cup again) \cap (1..(j - 1)) : line(k) # line(j))
  IN IF faults # <<>>
  THEN <<"bad", IF stray # {} THEN "root operation" ELSE "root operation twice", [j \in 1..Len(faults) |-> line(faults[j])]>>
  ELSE LET typ(k) == IF RootsOf(ops, k) = <<>> THEN <<>> ELSE <<RootsOf(ops, k)[1][2]>>
       IN Ok(<<"schema", p, dirs, typ("query"), typ("mutation"), typ("subscription")>>)

Ext(node, something, what, needs) ==
  IF something THEN Ok(node)
  ELSE Wrong("empty extension", <<Says(what \o " type extension should contain at least one " \o needs \o ".")>>)

\* names of an Implements or Members list
NamesIn(o) == IF o = <<>> THEN <<>> ELSE o[1]

Build(n, a, p) ==
  CASE n = "Directive" -> Ok(<<"dir", p, a[1], OrNil(a[2])>>)
    [] n = "Argument" \/ n = "MemberV" \/ n = "MemberC" -> Ok(<<a[1], a[2]>>)
    [] n = "True" -> Ok(<<"bool", "true">>)
    [] n = "False" -> Ok(<<"bool", "false">>)
    [] n = "Null" -> Ok(<<"null">>)
    [] n = "EnumV" -> Ok(<<"enumv", a[1]>>)
    [] n = "IntV" -> IntMeaning(a[1])
    [] n = "FloatV" -> FloatMeaning(a[1])
    [] n = "StringV" -> LET v == StringValue(a[1]) IN IF v[1] = "ok" THEN Ok(<<"str", v[2]>>) ELSE v
    [] n = "BlockV" -> Ok(<<"str", BlockValue(a[1])>>)
    [] n = "VarV" -> Ok(<<"var", a[1]>>)
    [] n = "ListV" \/ n = "ListC" -> Ok(<<"list", a[1]>>)
    [] n = "ObjectV" \/ n = "ObjectC" -> Ok(<<"obj", ObjectOf(a[1], 1, <<>>)>>)
    [] n = "Type" -> Ok(IF a[2] = <<>> THEN a[1] ELSE <<"nonnull", a[1]>>)
    [] n = "NamedType" -> Ok(<<"named", a[1]>>)
    [] n = "ListType" -> Ok(<<"listof", a[1]>>)
    \* query language
    [] n = "Anonymous" -> Ok(<<"anon", a[1]>>)
    [] n = "Query" -> Ok(<<"query", p, a[1], OrNil(a[2]), a[3], a[4]>>)
    [] n = "Mutation" -> Ok(<<"mutation", p, a[1], OrNil(a[2]), a[3], a[4]>>)
    [] n = "Subscription" -> Ok(<<"subscription", p, a[1], OrNil(a[2]), a[3], a[4]>>)
    [] n = "Fragment" -> Ok(<<"fragment", p, a[1], a[2], a[3], a[4]>>)
    [] n = "Variable" -> Ok(<<"vardef", p, a[1], a[2], a[3]>>)
    [] n = "Selections" -> Ok(<<"sel", p, a[2], a[1]>>)
    [] n = "Field" -> Ok(<<"field", p, IF a[2] = <<>> THEN <<>> ELSE <<a[1]>>,
                           IF a[2] = <<>> THEN a[1] ELSE a[2][1], OrNil(a[3]), a[4],
                           IF a[5] = <<>> THEN <<"sel", p, p, <<>>>> ELSE a[5][1]>>)
    [] n = "Inline" -> Ok(<<"inline", p, a[1], a[2], a[3]>>)
    [] n = "Spread" -> Ok(<<"spread", p, a[1], a[2]>>)
    \* schema language
    [] n = "Schema" -> SchemaMeaning(p, a[1], a[2])
    [] n = "RootOp" -> Ok(<<a[1], a[2]>>)
    \* the description of a definition is filled in by Described
    [] n = "Described" -> Ok(IF a[1] = <<>> THEN a[2] ELSE [a[2] EXCEPT ![3] = <<a[1][1][2]>>])
    [] n = "Scalar" -> Ok(<<"scalar", p, <<>>, a[1], a[2]>>)
    [] n = "ScalarX" -> Ext(<<"scalar+", p, a[1], a[2]>>, a[2] # <<>>, "Scalar", "directive")
    [] n = "Object" -> Ok(<<"type", p, <<>>, a[1], NamesIn(a[2]), a[3], OrNil(a[4])>>)
    [] n = "ObjectX" -> Ext(<<"type+", p, a[1], NamesIn(a[2]), a[3], OrNil(a[4])>>,
                            a[2] # <<>> \/ a[3] # <<>> \/ a[4] # <<>>, "Object", "interface, directive or field")
    [] n = "Interface" -> Ok(<<"interface", p, <<>>, a[1], NamesIn(a[2]), a[3], OrNil(a[4])>>)
    [] n = "InterfaceX" -> Ext(<<"interface+", p, a[1], NamesIn(a[2]), a[3], OrNil(a[4])>>,
                               a[2] # <<>> \/ a[3] # <<>> \/ a[4] # <<>>, "Interface", "interface, directive or field")
    [] n = "Implements" -> Ok(a[2])
    [] n = "FieldDef" -> Ok(<<"sfield", p, IF a[1] = <<>> THEN <<>> ELSE <<a[1][1][2]>>, a[2],
                              OrNil(a[3]), a[4], a[5]>>)
    [] n = "InputValue" -> Ok(<<"inval", p, IF a[1] = <<>> THEN <<>> ELSE <<a[1][1][2]>>, a[2],
                                a[3], a[4], a[5]>>)
    [] n = "Union" -> Ok(<<"union", p, <<>>, a[1], a[2], NamesIn(a[3])>>)
    [] n = "UnionX" -> Ext(<<"union+", p, a[1], a[2], NamesIn(a[3])>>, a[2] # <<>> \/ a[3] # <<>>,
                         "Union", "directive or type")
    [] n = "Members" -> Ok(a[2])
    [] n = "Enum" -> Ok(<<"enum", p, <<>>, a[1], a[2], OrNil(a[3])>>)
    [] n = "EnumX" -> Ext(<<"enum+", p, a[1], a[2], OrNil(a[3])>>, a[2] # <<>> \/ a[3] # <<>>,
                        "Enum", "directive or value")
    [] n = "EnumValue" -> Ok(<<"enumval", p, IF a[1] = <<>> THEN <<>> ELSE <<a[1][1][2]>>, a[2], a[3]>>)
    [] n = "Input" -> Ok(<<"input", p, <<>>, a[1], a[2], OrNil(a[3])>>)
    [] n = "InputX" -> Ext(<<"input+", p, a[1], a[2], OrNil(a[3])>>, a[2] # <<>> \/ a[3] # <<>>,
                         "Input object", "directive or field")
    [] n = "DirectiveDef" -> Ok(<<"directive", p, <<>>, a[1], OrNil(a[2]),
                                  IF a[3] = <<>> THEN "false" ELSE "true", OrNil(a[4])>>)
    [] n = "Locations" -> Ok(a[2])
    [] n = "Location" -> IF a[1] \in LocationNames THEN Ok(a[1]) ELSE Wrong("location", <<Says("invalid directive location")>>)
    [] n \in {"Bang", "Amp", "Pipe", "Repeatable"} -> Ok(<<>>)
    \* wrappers that only pass their one contribution on
    [] OTHER -> Ok(a[1])

-----------------------------------------------------------------------------
(* Definitions made by hand                                                 *)

NoPos == <<0, 0>>
\* what the constructor of the definition gives for a name: nothing but the name
Fresh(tag, name) ==
  CASE tag = "scalar" -> <<tag, NoPos, <<>>, name, <<>>>>
    [] tag = "scalar+" -> <<tag, NoPos, name, <<>>>>
    [] tag \in {"type", "interface"} -> <<tag, NoPos, <<>>, name, <<>>, <<>>, <<>>>>
    [] tag \in {"type+", "interface+"} -> <<tag, NoPos, name, <<>>, <<>>, <<>>>>
    [] tag \in {"union", "enum", "input"} -> <<tag, NoPos, <<>>, name, <<>>, <<>>>>
    [] tag \in {"union+", "enum+", "input+"} -> <<tag, NoPos, name, <<>>, <<>>>>
    [] tag = "directive" -> <<tag, NoPos, <<>>, name, <<>>, "false", <<>>>>
    \* an enum value is shown in an enum
    [] tag = "enumval" -> <<"enum", NoPos, <<>>, S("E"), <<>>, <<<<tag, NoPos, <<>>, name, <<>>>>>>>>
EmptySchema == <<"schema", NoPos, <<>>, <<>>, <<>>, <<>>>>

-----------------------------------------------------------------------------
(* The node without its positions                                           *)

RECURSIVE Strip(_), StripAll(_)
StripAll(xs) == [j \in 1..Len(xs) |-> Strip(xs[j])]
Strip(x) ==
  CASE x[1] = "dir" -> [x EXCEPT ![2] = NoPos]
    [] x[1] = "anon" -> [x EXCEPT ![2] = Strip(x[2])]
    [] x[1] \in {"query", "mutation", "subscription"} ->
         [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4]), ![5] = StripAll(x[5]), ![6] = Strip(x[6])]
    [] x[1] = "fragment" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5]), ![6] = Strip(x[6])]
    [] x[1] = "vardef" -> [x EXCEPT ![2] = NoPos]
    [] x[1] = "sel" -> [x EXCEPT ![2] = NoPos, ![3] = NoPos, ![4] = StripAll(x[4])]
    [] x[1] = "field" -> [x EXCEPT ![2] = NoPos, ![6] = StripAll(x[6]), ![7] = Strip(x[7])]
    [] x[1] = "inline" -> [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4]), ![5] = Strip(x[5])]
    [] x[1] = "spread" -> [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4])]
    [] x[1] = "schema" -> [x EXCEPT ![2] = NoPos, ![3] = StripAll(x[3])]
    [] x[1] = "scalar" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5])]
    [] x[1] = "scalar+" -> [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4])]
    [] x[1] \in {"type", "interface"} -> [x EXCEPT ![2] = NoPos, ![6] = StripAll(x[6]), ![7] = StripAll(x[7])]
    [] x[1] \in {"type+", "interface+"} -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5]), ![6] = StripAll(x[6])]
    [] x[1] = "union" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5])]
    [] x[1] = "union+" -> [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4])]
    [] x[1] \in {"enum", "input"} -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5]), ![6] = StripAll(x[6])]
    [] x[1] \in {"enum+", "input+"} -> [x EXCEPT ![2] = NoPos, ![4] = StripAll(x[4]), ![5] = StripAll(x[5])]
    [] x[1] = "enumval" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5])]
    [] x[1] = "sfield" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5]), ![7] = StripAll(x[7])]
    [] x[1] = "inval" -> [x EXCEPT ![2] = NoPos, ![7] = StripAll(x[7])]
    [] x[1] = "directive" -> [x EXCEPT ![2] = NoPos, ![5] = StripAll(x[5])]
    [] OTHER -> x
=============================================================================
