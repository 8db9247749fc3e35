INIT Init
NEXT Next
INVARIANTS TokensCoverText TokensStandAlone MinifyKeepsTokens BlockStringsKeepContent
CHECK_DEADLOCK FALSE
