INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
POSTCONDITION Report
