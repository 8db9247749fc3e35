------------------------------- MODULE GqlNodes -------------------------------
(***************************************************************************)
(* Every node of a tree on its own, outside in and left to right, as       *)
(* <<kind, text>>: the node printed alone in the default style.  Kinds are *)
(* the names of the AST types.                                             *)
(***************************************************************************)
EXTENDS GqlPrint

LOCAL St == DefaultStyle

RECURSIVE Concat(_, _)
Concat(xs, i) == IF i > Len(xs) THEN <<>> ELSE xs[i] \o Concat(xs, i + 1)

RECURSIVE NValue(_)
NValue(v) ==
  \* the owned copy of a value prints the same
  <<<<"Value", PValue(v, St, 0)>>, <<"into_static", PValue(v, St, 0)>>>>
  \o CASE v[1] = "list" -> Concat([j \in 1..Len(v[2]) |-> NValue(v[2][j])], 1)
       [] v[1] = "obj" -> Concat([j \in 1..Len(v[2]) |-> NValue(v[2][j][2])], 1)
       [] OTHER -> <<>>
NArgs(args) == Concat([j \in 1..Len(args) |-> NValue(args[j][2])], 1)
RECURSIVE NType(_)
NType(t) == <<<<"Type", PType(t)>>>> \o (IF t[1] = "named" THEN <<>> ELSE NType(t[2]))
NDirs(ds) == Concat([j \in 1..Len(ds) |-> <<<<"Directive", PDir(ds[j], St, 0)>>>> \o NArgs(ds[j][4])], 1)
NCond(name) == <<<<"TypeCondition", PCond(name)>>>>

RECURSIVE NSels(_)
NSel(x) ==
  CASE x[1] = "field" -> <<<<"Field", PSel(x, St, 0)>>>> \o NArgs(x[5]) \o NDirs(x[6]) \o NSels(x[7])
    [] x[1] = "inline" -> <<<<"InlineFragment", PSel(x, St, 0)>>>>
                          \o (IF x[3] = <<>> THEN <<>> ELSE NCond(x[3][1])) \o NDirs(x[4]) \o NSels(x[5])
    [] x[1] = "spread" -> <<<<"FragmentSpread", PSel(x, St, 0)>>>> \o NDirs(x[4])
NSels(sel) ==
  IF sel[4] = <<>> THEN <<>>
  ELSE <<<<"SelectionSet", PSelBlock(sel, St, 0)>>>> \o Concat([j \in 1..Len(sel[4]) |-> NSel(sel[4][j])], 1)
NVars(vs) ==
  Concat([j \in 1..Len(vs) |-> <<<<"VariableDefinition", PVar(vs[j], St, 0)>>>> \o NType(vs[j][4])
                               \o (IF vs[j][5] = <<>> THEN <<>> ELSE NValue(vs[j][5][1]))], 1)

NInVals(xs) ==
  Concat([j \in 1..Len(xs) |-> <<<<"InputValue", PInVal(xs[j], St, 0)>>>> \o NType(xs[j][5])
            \o (IF xs[j][6] = <<>> THEN <<>> ELSE NValue(xs[j][6][1])) \o NDirs(xs[j][7])], 1)
NFields(xs) ==
  Concat([j \in 1..Len(xs) |-> <<<<"SchemaField", PField(xs[j], St, 0)>>>> \o NInVals(xs[j][5])
            \o NType(xs[j][6]) \o NDirs(xs[j][7])], 1)
NEnumVals(xs) == Concat([j \in 1..Len(xs) |-> NDirs(xs[j][5])], 1)

\* the AST types a definition passes through, outermost first
OpKind == [query |-> "Query", mutation |-> "Mutation", subscription |-> "Subscription"]
DefKinds(tag) ==
  CASE tag = "anon" -> <<"Definition", "OperationDefinition">>
    [] tag \in DOMAIN OpKind -> <<"Definition", "OperationDefinition", OpKind[tag]>>
    [] tag = "fragment" -> <<"Definition", "FragmentDefinition">>
    [] tag = "schema" -> <<"Definition", "SchemaDefinition">>
    [] tag = "scalar" -> <<"Definition", "TypeDefinition", "ScalarType">>
    [] tag = "type" -> <<"Definition", "TypeDefinition", "ObjectType">>
    [] tag = "interface" -> <<"Definition", "TypeDefinition", "InterfaceType">>
    [] tag = "union" -> <<"Definition", "TypeDefinition", "UnionType">>
    [] tag = "enum" -> <<"Definition", "TypeDefinition", "EnumType">>
    [] tag = "input" -> <<"Definition", "TypeDefinition", "InputObjectType">>
    [] tag = "scalar+" -> <<"Definition", "TypeExtension", "ScalarTypeExtension">>
    [] tag = "type+" -> <<"Definition", "TypeExtension", "ObjectTypeExtension">>
    [] tag = "interface+" -> <<"Definition", "TypeExtension", "InterfaceTypeExtension">>
    [] tag = "union+" -> <<"Definition", "TypeExtension", "UnionTypeExtension">>
    [] tag = "enum+" -> <<"Definition", "TypeExtension", "EnumTypeExtension">>
    [] tag = "input+" -> <<"Definition", "TypeExtension", "InputObjectTypeExtension">>
    [] tag = "directive" -> <<"Definition", "DirectiveDefinition">>
NDef(x) ==
  LET kinds == DefKinds(x[1])
      text == PDef(x, St)
  IN [j \in 1..Len(kinds) |-> <<kinds[j], text>>]
     \o CASE x[1] = "anon" -> NSels(x[2])
          [] x[1] \in DOMAIN OpKind -> NVars(x[4]) \o NDirs(x[5]) \o NSels(x[6])
          [] x[1] = "fragment" -> NCond(x[4]) \o NDirs(x[5]) \o NSels(x[6])
          [] x[1] = "schema" -> NDirs(x[3])
          [] x[1] = "scalar" -> NDirs(x[5])
          [] x[1] = "scalar+" -> NDirs(x[4])
          [] x[1] \in {"type", "interface"} -> NDirs(x[6]) \o NFields(x[7])
          [] x[1] \in {"type+", "interface+"} -> NDirs(x[5]) \o NFields(x[6])
          [] x[1] = "union" -> NDirs(x[5])
          [] x[1] = "union+" -> NDirs(x[4])
          [] x[1] = "enum" -> NDirs(x[5]) \o NEnumVals(x[6])
          [] x[1] = "enum+" -> NDirs(x[4]) \o NEnumVals(x[5])
          [] x[1] = "input" -> NDirs(x[5]) \o NInVals(x[6])
          [] x[1] = "input+" -> NDirs(x[4]) \o NInVals(x[5])
          [] x[1] = "directive" -> NInVals(x[5])

NDoc(defs) == <<<<"Document", PDoc(defs, St)>>>> \o Concat([j \in 1..Len(defs) |-> NDef(defs[j])], 1)
=============================================================================
