INIT Init
NEXT Next
INVARIANT EveryTextIsCounted
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
