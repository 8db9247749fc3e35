INIT Init
NEXT Next
VIEW view
INVARIANT TypedTextReadsBack
CHECK_DEADLOCK FALSE
