------------------------------- MODULE GqlExport -------------------------------
(* Prints the grammar for the input generator, and checks that one token of *)
(* lookahead decides every choice in it.                                    *)
EXTENDS GqlGrammar, Json
ASSUME GrammarIsPredictive
ASSUME PrintT(ToJson([prod |-> Prod]))
VARIABLE v
Init == v = 0
Next == UNCHANGED v
=============================================================================
