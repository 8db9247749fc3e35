INIT Init
NEXT Next
VIEW view
INVARIANTS HistoryInStep BudgetCountsOpenBrackets AtToken PositionsAreCounted RoundTrip PrintIsStable
INVARIANTS MinifyKeepsTokens MinifyIsStable MinifyKeepsMeaning ConsumeAgrees
CHECK_DEADLOCK FALSE
