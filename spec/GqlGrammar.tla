------------------------------ MODULE GqlGrammar ------------------------------
(***************************************************************************)
(* The syntactic grammar as data.  A production is either a sequence of    *)
(* items or an ordered choice of nonterminals.  Items:                     *)
(*   <<"t", T>>     terminal T, contributes nothing                        *)
(*   <<"v", T>>     terminal T, contributes its text                       *)
(*   <<"e", "">>    contributes the position of the next token             *)
(*   <<"n", X>>     nonterminal                                            *)
(*   <<"o", X>>     optional X:    <<>> or <<x>>                           *)
(*   <<"*", X>>     zero or more,  <<"+", X>>  one or more                 *)
(*   <<"s", X, T>>  one or more X separated by terminal T                  *)
(* A terminal is a punctuator, a keyword (a name with that text), or a     *)
(* token kind N I F S B or END.                                            *)
(***************************************************************************)
EXTENDS GqlLex, FiniteSets

Seq_(items) == [k |-> "seq", x |-> items]
Alt_(nts)   == [k |-> "alt", x |-> nts]
T(t) == <<"t", t>>
V(t) == <<"v", t>>
Here == <<"e", "">>
X(n) == <<"n", n>>
Opt(n) == <<"o", n>>
Many(n) == <<"*", n>>
Some(n) == <<"+", n>>
SepBy(n, t) == <<"s", n, t>>

Prod == [
  \* ------------------------------------------------ shared by both languages
  Name      |-> Seq_(<<V("N")>>),
  Directive |-> Seq_(<<T("@"), V("N"), Opt("Arguments")>>),
  Arguments |-> Seq_(<<T("("), Some("Argument"), T(")")>>),
  Argument  |-> Seq_(<<V("N"), T(":"), X("Value")>>),
  \* ordered: `true` is not an enum value although it is a name
  Value     |-> Alt_(<<"True", "False", "Null", "EnumV", "IntV", "FloatV", "StringV", "BlockV",
                       "VarV", "ListV", "ObjectV">>),
  Const     |-> Alt_(<<"True", "False", "Null", "EnumV", "IntV", "FloatV", "StringV", "BlockV",
                       "ListC", "ObjectC">>),
  True      |-> Seq_(<<T("true")>>),
  False     |-> Seq_(<<T("false")>>),
  Null      |-> Seq_(<<T("null")>>),
  EnumV     |-> Seq_(<<V("N")>>),
  IntV      |-> Seq_(<<V("I")>>),
  FloatV    |-> Seq_(<<V("F")>>),
  StringV   |-> Seq_(<<V("S")>>),
  BlockV    |-> Seq_(<<V("B")>>),
  VarV      |-> Seq_(<<T("$"), V("N")>>),
  ListV     |-> Seq_(<<T("["), Many("Value"), T("]")>>),
  ListC     |-> Seq_(<<T("["), Many("Const"), T("]")>>),
  ObjectV   |-> Seq_(<<T("{"), Many("MemberV"), T("}")>>),
  ObjectC   |-> Seq_(<<T("{"), Many("MemberC"), T("}")>>),
  MemberV   |-> Seq_(<<V("N"), T(":"), X("Value")>>),
  MemberC   |-> Seq_(<<V("N"), T(":"), X("Const")>>),
  Default   |-> Seq_(<<T("="), X("Const")>>),
  Type      |-> Seq_(<<X("BaseType"), Opt("Bang")>>),
  BaseType  |-> Alt_(<<"NamedType", "ListType">>),
  NamedType |-> Seq_(<<V("N")>>),
  ListType  |-> Seq_(<<T("["), X("Type"), T("]")>>),
  Bang      |-> Seq_(<<T("!")>>),
  Amp       |-> Seq_(<<T("&")>>),
  Pipe      |-> Seq_(<<T("|")>>),
  \* -------------------------------------------------------- query language
  QDoc      |-> Seq_(<<Some("QDef"), T("END")>>),
  QDef      |-> Alt_(<<"Anonymous", "Query", "Mutation", "Subscription", "Fragment">>),
  Anonymous |-> Seq_(<<X("Selections")>>),
  Query     |-> Seq_(<<T("query"), Opt("Name"), Opt("Variables"), Many("Directive"), X("Selections")>>),
  Mutation  |-> Seq_(<<T("mutation"), Opt("Name"), Opt("Variables"), Many("Directive"), X("Selections")>>),
  Subscription |-> Seq_(<<T("subscription"), Opt("Name"), Opt("Variables"), Many("Directive"), X("Selections")>>),
  Fragment  |-> Seq_(<<T("fragment"), V("N"), X("Condition"), Many("Directive"), X("Selections")>>),
  Condition |-> Seq_(<<T("on"), V("N")>>),
  Variables |-> Seq_(<<T("("), Some("Variable"), T(")")>>),
  Variable  |-> Seq_(<<T("$"), V("N"), T(":"), X("Type"), Opt("Default")>>),
  Selections |-> Seq_(<<T("{"), Some("Selection"), Here, T("}")>>),
  Selection |-> Alt_(<<"Field", "Dots">>),
  Field     |-> Seq_(<<V("N"), Opt("Alias"), Opt("Arguments"), Many("Directive"), Opt("Selections")>>),
  Alias     |-> Seq_(<<T(":"), V("N")>>),
  Dots      |-> Seq_(<<T("..."), X("AfterDots")>>),
  \* ordered: `on` after the dots is a type condition, never a fragment name
  AfterDots |-> Alt_(<<"Inline", "Spread">>),
  Inline    |-> Seq_(<<Opt("Condition"), Many("Directive"), X("Selections")>>),
  Spread    |-> Seq_(<<V("N"), Many("Directive")>>),
  \* ------------------------------------------------------- schema language
  SDoc      |-> Seq_(<<Some("SDef"), T("END")>>),
  SDef      |-> Alt_(<<"Schema", "Extension", "Described">>),
  Schema    |-> Seq_(<<T("schema"), Many("Directive"), T("{"), Many("RootOp"), T("}")>>),
  RootOp    |-> Seq_(<<V("N"), T(":"), V("N")>>),
  Extension |-> Seq_(<<T("extend"), X("ExtBody")>>),
  ExtBody   |-> Alt_(<<"ScalarX", "ObjectX", "InterfaceX", "UnionX", "EnumX", "InputX">>),
  Described |-> Seq_(<<Opt("Text"), X("DefBody")>>),
  Text      |-> Alt_(<<"StringV", "BlockV">>),
  DefBody   |-> Alt_(<<"Scalar", "Object", "Interface", "Union", "Enum", "Input", "DirectiveDef">>),
  Scalar    |-> Seq_(<<T("scalar"), V("N"), Many("Directive")>>),
  ScalarX   |-> Seq_(<<T("scalar"), V("N"), Many("Directive")>>),
  Object    |-> Seq_(<<T("type"), V("N"), Opt("Implements"), Many("Directive"), Opt("Fields")>>),
  ObjectX   |-> Seq_(<<T("type"), V("N"), Opt("Implements"), Many("Directive"), Opt("Fields")>>),
  Interface |-> Seq_(<<T("interface"), V("N"), Opt("Implements"), Many("Directive"), Opt("Fields")>>),
  InterfaceX |-> Seq_(<<T("interface"), V("N"), Opt("Implements"), Many("Directive"), Opt("Fields")>>),
  Implements |-> Seq_(<<T("implements"), Opt("Amp"), SepBy("Name", "&")>>),
  Fields    |-> Seq_(<<T("{"), Some("FieldDef"), T("}")>>),
  FieldDef  |-> Seq_(<<Opt("Text"), V("N"), Opt("Params"), T(":"), X("Type"), Many("Directive")>>),
  Params    |-> Seq_(<<T("("), Some("InputValue"), T(")")>>),
  InputValue |-> Seq_(<<Opt("Text"), V("N"), T(":"), X("Type"), Opt("Default"), Many("Directive")>>),
  Union     |-> Seq_(<<T("union"), V("N"), Many("Directive"), Opt("Members")>>),
  UnionX    |-> Seq_(<<T("union"), V("N"), Many("Directive"), Opt("Members")>>),
  Members   |-> Seq_(<<T("="), Opt("Pipe"), SepBy("Name", "|")>>),
  Enum      |-> Seq_(<<T("enum"), V("N"), Many("Directive"), Opt("EnumValues")>>),
  EnumX     |-> Seq_(<<T("enum"), V("N"), Many("Directive"), Opt("EnumValues")>>),
  EnumValues |-> Seq_(<<T("{"), Some("EnumValue"), T("}")>>),
  EnumValue |-> Seq_(<<Opt("Text"), V("N"), Many("Directive")>>),
  Input     |-> Seq_(<<T("input"), V("N"), Many("Directive"), Opt("InputFields")>>),
  InputX    |-> Seq_(<<T("input"), V("N"), Many("Directive"), Opt("InputFields")>>),
  InputFields |-> Seq_(<<T("{"), Some("InputValue"), T("}")>>),
  DirectiveDef |-> Seq_(<<T("directive"), T("@"), V("N"), Opt("Params"), Opt("Repeatable"), T("on"),
                          Opt("Locations")>>),
  Repeatable |-> Seq_(<<T("repeatable")>>),
  Locations |-> Seq_(<<Opt("Pipe"), SepBy("Location", "|")>>),
  Location  |-> Seq_(<<V("N")>>)
]

NTs == DOMAIN Prod
Starts == {"QDoc", "SDoc"}

LocationNames == {S(x) : x \in
  {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD",
   "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION",
   "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
   "VARIABLE_DEFINITION"}}
\* where executable documents have them; the others are type system locations
QueryLocations == {S(x) : x \in
  {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"}}

-----------------------------------------------------------------------------
(* FIRST sets                                                               *)

RECURSIVE FirstOf(_), FirstItems(_), NullableItems(_), NullableNT(_)
NullableItem(it) == it[1] \in {"o", "*", "e"} \/ (it[1] \in {"n", "+", "s"} /\ NullableNT(it[2]))
NullableItems(items) == \A j \in 1..Len(items) : NullableItem(items[j])
NullableNT(n) == IF Prod[n].k = "alt" THEN \E j \in 1..Len(Prod[n].x) : NullableNT(Prod[n].x[j])
                 ELSE NullableItems(Prod[n].x)
FirstItem(it) == IF it[1] \in {"t", "v"} THEN {it[2]} ELSE IF it[1] = "e" THEN {} ELSE FirstOf(it[2])
FirstItems(items) ==
  IF items = <<>> THEN {}
  ELSE FirstItem(Head(items)) \cup (IF NullableItem(Head(items)) THEN FirstItems(Tail(items)) ELSE {})
FirstOf(n) == IF Prod[n].k = "alt" THEN UNION {FirstOf(Prod[n].x[j]) : j \in 1..Len(Prod[n].x)}
              ELSE FirstItems(Prod[n].x)
First == [n \in NTs |-> FirstOf(n)]

\* does this token match this terminal?  a keyword is also a name
Hits(tok, t)   == tok.t = t \/ (t = "N" /\ tok.k = "N")
Begins(tok, n) == tok.t \in First[n] \/ (tok.k = "N" /\ "N" \in First[n])

\* the sequence nonterminal that n stands for in front of tok ("" if none)
RECURSIVE Resolve(_, _), ResolveAlt(_, _, _)
ResolveAlt(alts, tok, j) ==
  IF j > Len(alts) THEN ""
  ELSE IF Begins(tok, alts[j]) THEN Resolve(alts[j], tok) ELSE ResolveAlt(alts, tok, j + 1)
Resolve(n, tok) ==
  IF Prod[n].k = "seq" THEN (IF Begins(tok, n) THEN n ELSE "") ELSE ResolveAlt(Prod[n].x, tok, 1)

-----------------------------------------------------------------------------
(* One token of lookahead is enough.  The implementation commits to an     *)
(* alternative on its first token; that accepts the whole language exactly *)
(* when the conditions below hold, so TLC checks them.                     *)

\* overlap of two terminal sets, as sets of tokens
Overlap(A, B) == (A \cap B) \cup (IF "N" \in A THEN B \cap Keywords ELSE {})
                            \cup (IF "N" \in B THEN A \cap Keywords ELSE {})

RECURSIVE FollowStep(_)
\* FOLLOW as a least fixed point over [NTs -> sets of terminals]
AfterItem(F, n, items, j) ==
  \* what can follow item j of production n
  LET rest == SubSeq(items, j + 1, Len(items)) IN
    FirstItems(rest) \cup (IF NullableItems(rest) THEN F[n] ELSE {})
    \cup (IF items[j][1] \in {"*", "+"} THEN FirstOf(items[j][2]) ELSE {})
    \cup (IF items[j][1] = "s" THEN {items[j][3]} ELSE {})
FollowOnce(F) ==
  [m \in NTs |->
     F[m] \cup
     UNION {IF Prod[n].k = "alt"
            THEN (IF \E j \in 1..Len(Prod[n].x) : Prod[n].x[j] = m THEN F[n] ELSE {})
            ELSE UNION {IF Prod[n].x[j][1] \in {"n", "o", "*", "+", "s"} /\ Prod[n].x[j][2] = m
                        THEN AfterItem(F, n, Prod[n].x, j) ELSE {} : j \in 1..Len(Prod[n].x)}
            : n \in NTs}]
FollowStep(F) == LET G == FollowOnce(F) IN IF G = F THEN F ELSE FollowStep(G)
Follow == FollowStep([n \in NTs |-> {}])

\* what may come next after the optional or repeated item j of production n
NextAfter(n, j) ==
  LET items == Prod[n].x
      rest == SubSeq(items, j + 1, Len(items))
  IN FirstItems(rest) \cup (IF NullableItems(rest) THEN Follow[n] ELSE {})

OptItems == {<<n, j>> \in {m \in NTs : Prod[m].k = "seq"} \X (1..7) :
               j <= Len(Prod[n].x) /\ Prod[n].x[j][1] \in {"o", "*", "+"}}
OptConflicts == {<<p[1], Prod[p[1]].x[p[2]][2]>> : p \in
                   {q \in OptItems : Overlap(FirstOf(Prod[q[1]].x[q[2]][2]), NextAfter(q[1], q[2])) # {}}}
SepConflicts == {n \in {m \in NTs : Prod[m].k = "seq"} :
                   \E j \in 1..Len(Prod[n].x) : Prod[n].x[j][1] = "s" /\ Prod[n].x[j][3] \in NextAfter(n, j)}
AltConflicts == {<<n, i, j>> \in {m \in NTs : Prod[m].k = "alt"} \X (1..11) \X (1..11) :
                   i < j /\ j <= Len(Prod[n].x)
                   /\ Overlap(FirstOf(Prod[n].x[i]), FirstOf(Prod[n].x[j])) # {}}

\* The only overlaps are the intended ordered choices (true/false/null before enum values, `on`
\* before fragment names) and one greedy choice: a name directly after `directive @d on` is read
\* as a location even where a definition could start.
GrammarIsPredictive ==
  /\ \A n \in NTs : ~NullableNT(n)
  /\ SepConflicts = {}
  /\ OptConflicts = {<<"DirectiveDef", "Locations">>}
  /\ {a[1] : a \in AltConflicts} = {"Value", "Const", "AfterDots"}
  /\ \A a \in AltConflicts : <<Prod[a[1]].x[a[2]], Prod[a[1]].x[a[3]]>> \in
       {<<"True", "EnumV">>, <<"False", "EnumV">>, <<"Null", "EnumV">>, <<"Inline", "Spread">>}
=============================================================================
