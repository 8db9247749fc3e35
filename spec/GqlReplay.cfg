INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
