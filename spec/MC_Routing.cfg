INIT Init
NEXT Next
INVARIANT UnknownIsAbsent
INVARIANT TypeIsAsked
INVARIANT StrictIsLoose
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
