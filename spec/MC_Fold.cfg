INIT Init
NEXT Next
INVARIANT FoldingIsInvisible
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
