INIT Init
NEXT Next
INVARIANT OrderIsIrrelevant
INVARIANT NoInterference
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
